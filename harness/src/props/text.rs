//! C12-C14: rendering and parsing.

use super::arith::width_labels;
use crate::dict::dict;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::with_operand;
use baa::*;
use num_bigint::{BigInt, BigUint, Sign};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RenderCase {
    v: Bv,
    k: u8,
}

fn digits_of(v: &Bv, bits: u32) -> String {
    let n = v.w.div_ceil(bits);
    (0..n)
        .rev()
        .map(|d| {
            let x = (0..bits).filter(|b| d * bits + b < v.w && v.bit(d * bits + b)).map(|b| 1u32 << b).sum();
            char::from_digit(x, 16).unwrap()
        })
        .collect()
}

fn check_signed(s: &str, v: &Bv, radix: u32, what: &str) -> Res {
    let fail = |m: &str| Err(format!("{what}({v:?}) = {s:?}: {m}"));
    let (neg, body) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    if neg != v.neg() {
        return fail("wrong sign");
    }
    if body.is_empty() {
        // a 1-bit zero has no magnitude digits
        return if v.w == 1 && !neg { Ok(()) } else { fail("no digits") };
    }
    if !body.chars().all(|c| c.is_digit(radix) && !c.is_ascii_uppercase()) {
        return fail("bad digit");
    }
    let mag = BigUint::parse_bytes(body.as_bytes(), radix).unwrap();
    if &mag != v.i().magnitude() {
        return fail("wrong magnitude");
    }
    Ok(())
}

fn c12_check(c: &RenderCase, obs: &mut Obs) -> Res {
    let v = &c.v;
    width_labels(v.w, obs);
    let min = v.w > 0 && v.neg() && v.x == Bv::zero(v.w).with_bit(v.w - 1, true).x;
    obs.label_if(min, "most negative value");
    obs.label_if(v.neg(), "negative");
    obs.label_if(v.w > 1 && (v.w - 1) % 64 == 0, "one bit above a word");
    obs.label_if(v.u().bits() > 128, "number above 128 bits");
    obs.nontrivial_if(!v.is_zero() && v.w > 1);
    with_operand!(c.k, v, |x| {
        let bits = digits_of(v, 1);
        expect_eq(x.to_bit_str(), bits.clone(), || format!("to_bit_str({v:?})"))?;
        expect_eq(x.to_hex_str(), digits_of(v, 4), || format!("to_hex_str({v:?})"))?;
        if v.w <= QUADRATIC {
            expect_eq(x.to_dec_str(), v.u().to_string(), || format!("to_dec_str({v:?})"))?;
        }
        let dbg = match c.v.x.first().unwrap_or(&0) % 4 {
            0 => format!("{x:#?}"),
            1 => format!("{x:>8.3?}"),
            _ => format!("{x:?}"),
        };
        expect_eq(dbg.contains(&bits), true, || format!("Debug of {v:?} ({dbg}) contains the binary rendering"))?;
        if v.w > 0 {
            check_signed(&x.to_bit_str_signed(), v, 2, "to_bit_str_signed")?;
            check_signed(&x.to_hex_str_signed(), v, 16, "to_hex_str_signed")?;
        }
        if !same(x, v) {
            return Err("rendering changed its operand".into());
        }
    });
    let wrapped = format!("{:?}", Value::BitVec(v.val()));
    expect_eq(wrapped.contains(&digits_of(v, 1)), true, || format!("Debug of wrapped {v:?}: {wrapped}"))
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        suites: vec![
            Box::new(Suite {
                name: "c12_render",
                rule: "one value of any width and representation, incl. most negative values and widths one above a word; \
                       non-trivial: value non-zero and wider than 1",
                quick: 2_500_000,
                thorough: 40_000_000,
                strat: || (bv0(1400), 0u8..3).prop_map(|(v, k)| RenderCase { v, k }).boxed(),
                check: c12_check,
        }),
            Box::new(Suite {
                name: "c12_wide",
                rule: "the same on widths up to 70000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 2_500,
                thorough: 37_500,
                strat: || (wide_bv(70_000), 0u8..3).prop_map(|(v, k)| RenderCase { v, k }).boxed(),
                check: c12_check,
            }),
            Box::new(Suite {
                name: "c12_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || (huge_bv(), 0u8..3).prop_map(|(v, k)| RenderCase { v, k }).boxed(),
                check: c12_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C13

pub fn radix_for(w: u32, k: u8) -> u32 {
    match k % 8 {
        0 | 1 => 2,
        2 | 3 if w > QUADRATIC => 16,
        2 | 3 => 10,
        4 | 5 => 16,
        _ if w > QUADRATIC => [2, 16][k as usize / 8 % 2],
        _ if w > 128 => [2, 10, 16][k as usize / 8 % 3],
        6 => [3, 8, 35, 36, 32][k as usize / 8 % 5],
        _ => 2 + k as u32 / 8,
    }
    .clamp(2, 36)
}

/// Writes a number with leading zeros, mixed case and an optional plus sign.
pub fn numeral(num: &BigInt, radix: u32, zeros: usize, case: u64, plus: bool) -> String {
    let mut s = String::new();
    if num.sign() == Sign::Minus {
        s.push('-');
    } else if plus {
        s.push('+');
    }
    s.extend(std::iter::repeat_n('0', zeros));
    for (i, ch) in num.magnitude().to_str_radix(radix).chars().enumerate() {
        let up = match case & 3 {
            0 => false,
            1 => true,
            _ => case.rotate_right(i as u32) & 4 != 0,
        };
        s.push(if up { ch.to_ascii_uppercase() } else { ch });
    }
    s
}

/// Parses into existing contents: owned, or through a mutable view between guard words.
/// Returns the outcome and the value afterwards; fails if anything else was touched.
pub fn parse_into(old: &Bv, text: &str, radix: u32, view: bool) -> Result<(Result<(), String>, BitVecValue), String> {
    if view {
        let n = nwords(old.w);
        let mut store = vec![0xA5A5_5A5A_A5A5_5A5Au64; n + 4];
        store[2..2 + n].copy_from_slice(&old.x);
        let before = store.clone();
        let mut m: BitVecValueMutRef = store.as_mut_slice().get_mut_ref(BitVecValueIndex::new(2, old.w));
        let r = m.assign_from_str_radix(text, radix).map_err(|e| format!("{:?}", e.kind));
        if m.width() != old.w || m.words().len() != n {
            return Err(format!("view changed its type while parsing {text:?}"));
        }
        if store[..2] != before[..2] || store[2 + n..] != before[2 + n..] {
            return Err(format!("parsing {text:?} into a view of width {} changed neighbouring words", old.w));
        }
        let out = BitVecValue::from(store.as_slice().get_ref(BitVecValueIndex::new(2, old.w)));
        Ok((r, out))
    } else {
        let mut v = old.val();
        let r = v.assign_from_str_radix(text, radix).map_err(|e| format!("{:?}", e.kind));
        Ok((r, v))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParseCase {
    /// value to obtain
    v: Bv,
    /// write it as a negative number (if it is negative as two's complement)
    neg: bool,
    radix: u32,
    zeros: u32,
    case: u64,
    plus: bool,
    /// previous contents of the assignment target
    old: Bv,
    view: bool,
}

fn parse_case() -> BoxedStrategy<ParseCase> {
    parse_case_of(width(900))
}

fn parse_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<ParseCase> {
    (
        w,
        raw(),
        any::<bool>(),
        any::<u8>(),
        one_of![6 => Just(0u32), 3 => 1u32..=3, 1 => 4u32..200],
        any::<u64>(),
        any::<bool>(),
        raw(),
        any::<bool>(),
    )
        .prop_map(|(w, r, neg, kr, zeros, case, plus, ro, view)| ParseCase {
            v: r.at(w),
            neg,
            radix: radix_for(w, kr),
            zeros,
            case,
            plus: plus && case & 0x300 == 0,
            old: ro.at(w),
            view,
        })
        .boxed()
}

fn c13_check(c: &ParseCase, obs: &mut Obs) -> Res {
    let w = c.v.w;
    width_labels(w, obs);
    let num = if c.neg && c.v.neg() { c.v.i() } else { BigInt::from(c.v.u()) };
    let text = numeral(&num, c.radix, c.zeros as usize, c.case, c.plus);
    obs.label_if(num.sign() == Sign::Minus, "negative numeral");
    obs.label_if(c.zeros > 0, "leading zeros");
    obs.label_if(c.plus && text.starts_with('+'), "plus sign");
    obs.label_if(w > 128 && c.radix == 10, "decimal above 128 bits");
    obs.label_if(![2, 10, 16].contains(&c.radix), "other radix");
    obs.label_if(!c.old.is_zero() && c.v.u() < c.old.u(), "over larger previous contents");
    obs.nontrivial_if(text.len() > 1 && !c.v.is_zero());
    let what = |f: &str| format!("{f}({text:?}, radix {}) at width {w}", c.radix);
    match BitVecValue::from_str_radix(&text, c.radix, w) {
        Ok(v) => expect(&v, &c.v, || what("from_str_radix"))?,
        Err(e) => return Err(format!("{}: error {:?}", what("from_str_radix"), e.kind)),
    }
    match parse_into(&c.old, &text, c.radix, c.view)? {
        (Ok(()), v) => expect(&v, &c.v, || format!("{} over {:?}", what("assign_from_str_radix"), c.old))?,
        (Err(e), _) => return Err(format!("{}: error {e}", what("assign_from_str_radix"))),
    }
    // renderings parse back
    let o = c.v.val();
    let dec = if w <= QUADRATIC { o.to_dec_str() } else { String::new() };
    for (radix, s) in [(2, o.to_bit_str()), (16, o.to_hex_str()), (10, dec), (2, o.to_bit_str_signed()), (16, o.to_hex_str_signed())] {
        if s.is_empty() {
            continue;
        }
        match BitVecValue::from_str_radix(&s, radix, w) {
            Ok(v) => expect(&v, &c.v, || format!("parsing the rendering {s:?} (radix {radix}) of {:?}", c.v))?,
            Err(e) => return Err(format!("parsing the rendering {s:?} (radix {radix}) of {:?}: error {:?}", c.v, e.kind)),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InferCase {
    /// 4 bits per digit
    digits: Vec<u8>,
    sign: u8,
    case: u64,
}

fn infer_wide() -> BoxedStrategy<InferCase> {
    infer_case_of(one_of![2 => 400u32..=3000, 1 => 16_300u32..=16_500, 1 => 65_400u32..=65_700, 1 => 3000u32..=70_000].boxed())
}

fn infer_case() -> BoxedStrategy<InferCase> {
    infer_case_of(one_of![3 => 1u32..=20, 3 => (1u32..=5, 0u32..=4).prop_map(|(k, d)| k * 16 + d - 2),
        3 => (1u32..=5, 0u32..=4).prop_map(|(k, d)| k * 64 + d - 2), 1 => 1u32..=400].boxed())
}

fn infer_case_of(len: BoxedStrategy<u32>) -> BoxedStrategy<InferCase> {
    (len, raw(), 0u8..4, any::<u64>())
        .prop_map(|(n, r, sign, case)| {
            let v = r.at(n * 4);
            InferCase { digits: (0..n).map(|i| (v.x[i as usize / 16] >> (4 * (i % 16))) as u8 & 15).collect(), sign, case }
        })
        .boxed()
}

fn c13_infer(c: &InferCase, obs: &mut Obs) -> Res {
    obs.label_if(c.sign == 1, "minus");
    obs.label_if(c.sign == 2, "plus");
    obs.label_if(c.digits.len() % 64 == 0, "digits fill words exactly");
    obs.nontrivial_if(c.digits.len() > 1);
    let sign = ["", "-", "+", ""][c.sign as usize % 4];
    for (radix, per) in [(2u32, 1u32), (16, 4)] {
        let body: String = c
            .digits
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let ch = char::from_digit(if radix == 2 { *d as u32 & 1 } else { *d as u32 }, 16).unwrap();
                if c.case.rotate_right(i as u32) & 1 == 1 {
                    ch.to_ascii_uppercase()
                } else {
                    ch
                }
            })
            .collect();
        let text = format!("{sign}{body}");
        let w = c.digits.len() as u32 * per + (sign == "-") as u32;
        let mag = BigInt::from(BigUint::parse_bytes(body.as_bytes(), radix).unwrap());
        let e = Bv::from_i(w, &if sign == "-" { -mag } else { mag });
        let r = if radix == 2 { BitVecValue::from_bit_str(&text) } else { BitVecValue::from_hex_str(&text) };
        match r {
            Ok(v) => expect(&v, &e, || format!("width-inferring parse (radix {radix}) of {text:?}"))?,
            Err(err) => return Err(format!("width-inferring parse (radix {radix}) of {text:?}: error {:?}", err.kind)),
        }
    }
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        suites: vec![
            Box::new(Suite {
                name: "c13_parse",
                rule: "a value written in radix 2/10/16 (2..=36 up to 128 bits), either sign, leading zeros, mixed case, \
                       plus sign, parsed afresh and over previous contents (owned or through a view), and its renderings \
                       parsed back; non-trivial: more than one character, value non-zero",
                quick: 2_000_000,
                thorough: 32_000_000,
                strat: parse_case,
                check: c13_check,
            }),
            Box::new(Suite {
                name: "c13_infer_width",
                rule: "1..=400 digits (biased to word boundaries) with optional sign, parsed with inferred width in both \
                       radixes; non-trivial: more than one digit",
                quick: 1_500_000,
                thorough: 24_000_000,
                strat: infer_case,
                check: c13_infer,
            }),
            Box::new(Suite {
                name: "c13_wide",
                rule: "the same on widths up to 70000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 4_000,
                thorough: 60_000,
                strat: || parse_case_of(wide_width(70_000)),
                check: c13_check,
            }),
            Box::new(Suite {
                name: "c13_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || parse_case_of(huge_width()),
                check: c13_check,
            }),
            Box::new(Suite {
                name: "c13_infer_wide",
                rule: "400..=70000 digits parsed with inferred width; every case non-trivial",
                quick: 4_000,
                thorough: 60_000,
                strat: || infer_wide(),
                check: c13_infer,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    text: String,
    radix: u32,
    old: Bv,
    view: bool,
}

/// A number around the limits of width `w`.
fn around_limit(w: u32, r: &Raw, mode: u8) -> BigInt {
    let one = BigInt::from(1);
    let d = BigInt::from((r.k >> 4) % 4) - 1; // -1..=2
    match mode % 12 {
        0 => (&one << w) + d,
        1 => -(&one << (w - 1)) - d,
        2 => BigInt::from(r.at(w + 1).u()),
        3 => -BigInt::from(r.at(w + 1).u()),
        4 => -BigInt::from(r.at(w).u()),
        5 => BigInt::from(r.at(w + 1 + r.k % 200).u()),
        6 => (&one << nwords(w) as u32 * 64) + d,
        7 => -(BigInt::from(r.at(w).u()) >> 1u32),
        8 => BigInt::from(r.at(w).u()) >> (r.style % w as u64),
        _ => BigInt::from(r.at(w).u()),
    }
}

fn text_case() -> BoxedStrategy<TextCase> {
    text_case_of(width(600))
}

fn text_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<TextCase> {
    let piece = one_of![
        6 => proptest::sample::select(vec!["+", "-", "_", " ", ".", "g", "G", "z", "2", "9", "a", "A", "f", "0x", "0b", "/", ":", "@", "`",
            "\u{0}", "\n", "\u{661}", "é", "\u{1F600}", "--", "+-", "-+", "e", "x", "h", "\u{7f}", "1", "0"]).prop_map(|s| s.to_string()),
        2 => proptest::sample::select({
            let mut v = dict().strings.clone();
            v.push("-".into());
            v
        }),
        1 => any::<char>().prop_map(|c| c.to_string()),
        4 => (0u8..128).prop_map(|c| char::from(c).to_string()),
    ];
    (
        w,
        raw(),
        any::<(u8, u8, u8, bool, bool)>(),
        any::<u64>(),
        one_of![5 => Just(0u32), 2 => 1u32..=3, 1 => 4u32..100],
        one_of![2 => proptest::collection::vec((piece.clone(), any::<u16>(), 0u8..6), 1..=1),
            1 => proptest::collection::vec((piece, any::<u16>(), 0u8..6), 0..=3)],
        raw(),
        one_of![4 => Just(None), 1 => proptest::collection::vec(any::<char>(), 0..=30).prop_map(|v| Some(v.into_iter().collect::<String>())),
            1 => "[-+0-9a-zA-Z_]{0,40}".prop_map(Some), 1 => "[-+]?[01]{0,140}".prop_map(Some)],
    )
        .prop_map(|(w, r, (kr, mode, mutate, plus, view), case, zeros, edits, ro, free)| {
            let radix = radix_for(w, kr);
            let text = match free {
                Some(t) => t,
                None => {
                    let num = around_limit(w, &r, mode);
                    let mut chars: Vec<char> = numeral(&num, radix, zeros as usize, case, plus).chars().collect();
                    if mutate % 3 != 0 {
                        for (p, at, kind) in edits {
                            // ends and the positions next to a sign are as likely as the middle
                            let pos = match at % 4 {
                                0 => 0,
                                1 => chars.len(),
                                2 => 1.min(chars.len()),
                                _ => (at as usize / 4) % (chars.len() + 1),
                            };
                            match kind {
                                0 | 1 => {
                                    chars.splice(pos..pos, p.chars());
                                }
                                // a character that differs in one bit from a legal one
                                2 if pos < chars.len() => {
                                    let flip = 1u32 << ((at / 4) % 17);
                                    chars[pos] = char::from_u32(chars[pos] as u32 ^ flip).unwrap_or('?');
                                }
                                3 | 4 if pos < chars.len() => {
                                    chars.splice(pos..pos + 1, p.chars());
                                }
                                _ if pos < chars.len() => {
                                    chars.remove(pos);
                                }
                                _ => {}
                            }
                        }
                    }
                    chars.into_iter().collect()
                }
            };
            TextCase { text, radix, old: ro.at(w), view }
        })
        .boxed()
}

/// What parsing `text` may do.
enum Verdict {
    /// must succeed with this number
    Value(BigInt),
    /// must fail with this kind (any kind if `None`)
    Reject(Option<&'static str>),
    /// may succeed with this number or be rejected as malformed
    Either(BigInt),
}

fn number(body: &str, radix: u32) -> Option<BigInt> {
    if body.is_empty() || !body.chars().all(|c| c.is_digit(radix)) {
        return None;
    }
    BigInt::parse_bytes(body.as_bytes(), radix)
}

fn fits(n: &BigInt, w: u32) -> bool {
    if n.sign() == Sign::Minus {
        *n.magnitude() <= BigUint::from(1u8) << (w - 1)
    } else {
        n.magnitude().bits() <= w as u64
    }
}

fn verdict(text: &str, radix: u32, w: u32) -> Verdict {
    // long enough (in bytes) that the digits seen before the bad one may already exceed the width
    let may_overflow = text.len() as f64 * (radix as f64).log2() > (w.max(2) - 1) as f64;
    let invalid = Verdict::Reject(if may_overflow { None } else { Some("InvalidDigit") });
    let (neg, rest) = match text.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, text),
    };
    let (plus, body) = match rest.strip_prefix('+') {
        Some(r) => (true, r),
        None => (false, rest),
    };
    match number(body, radix) {
        None => invalid,
        Some(n) => {
            let n = if neg { -n } else { n };
            match (fits(&n, w), neg && plus) {
                // two signs: the wide and narrow parsers inherit different conventions from std
                (true, true) => Verdict::Either(n),
                (false, true) => Verdict::Reject(None),
                (true, false) => Verdict::Value(n),
                (false, false) => Verdict::Reject(Some("ExceedsWidth")),
            }
        }
    }
}

fn judge(r: Result<(), String>, v: Option<&BitVecValue>, verdict: &Verdict, w: u32, what: &str) -> Res {
    let value_is = |n: &BigInt| match v {
        Some(v) => expect(v, &Bv::from_i(w, n), || what.to_string()),
        None => Err(format!("{what}: no value")),
    };
    match (r, verdict) {
        (Ok(()), Verdict::Value(n)) | (Ok(()), Verdict::Either(n)) => value_is(n),
        (Ok(()), Verdict::Reject(_)) => {
            Err(format!("{what}: accepted as {}", v.map(|v| show(v)).unwrap_or_default()))
        }
        (Err(e), Verdict::Value(n)) => Err(format!("{what}: rejected ({e}) although it is the number {n}")),
        (Err(e), Verdict::Either(_)) => {
            if e == "InvalidDigit" {
                Ok(())
            } else {
                Err(format!("{what}: rejected as {e}"))
            }
        }
        (Err(_), Verdict::Reject(None)) => Ok(()),
        (Err(e), Verdict::Reject(Some(k))) => {
            if e == *k {
                Ok(())
            } else {
                Err(format!("{what}: rejected as {e}, expected {k}"))
            }
        }
    }
}

fn c14_check(c: &TextCase, obs: &mut Obs) -> Res {
    let w = c.old.w;
    width_labels(w, obs);
    let what = |f: &str| format!("{f}({:?}, radix {}) at width {w}", c.text, c.radix);
    let parsed = BitVecValue::from_str_radix(&c.text, c.radix, w);
    let (r, v) = match parsed {
        Ok(v) => (Ok(()), Some(v)),
        Err(e) => (Err(format!("{:?}", e.kind)), None),
    };
    if c.text.is_empty() {
        // documented as the 0-bit vector; at a width >= 1 it may be refused or mean zero
        obs.label("empty text");
        if let Some(v) = &v {
            expect(v, &Bv::zero(w), || what("from_str_radix"))?;
        }
        let (r, v) = parse_into(&c.old, &c.text, c.radix, c.view)?;
        expect_eq(v.width(), w, || "width after parsing".into())?;
        if r.is_ok() && !same(&v, &Bv::zero(w)) && !same(&v, &c.old) {
            return Err(format!("{} left {}", what("assign_from_str_radix"), show(&v)));
        }
        return Ok(());
    }
    let ver = verdict(&c.text, c.radix, w);
    match &ver {
        Verdict::Value(_) => obs.label("numeral that fits"),
        Verdict::Reject(Some("ExceedsWidth")) => obs.label("numeral that does not fit"),
        Verdict::Reject(_) => obs.label("not a numeral"),
        Verdict::Either(_) => obs.label("two signs"),
    }
    obs.label_if(!c.text.is_ascii(), "non-ASCII text");
    obs.nontrivial_if(matches!(ver, Verdict::Reject(_)) && c.text.len() > 1);
    judge(r, v.as_ref(), &ver, w, &what("from_str_radix"))?;
    let (r, v) = parse_into(&c.old, &c.text, c.radix, c.view)?;
    // the target keeps its type and stays canonical, whatever happened
    if v.width() != w || v.words().len() != nwords(w) || Bv::new(w, v.words().to_vec()).x != v.words() {
        return Err(format!("{} over {:?} left {} ({r:?})", what("assign_from_str_radix"), c.old, show(&v)));
    }
    judge(r, Some(&v), &ver, w, &what("assign_from_str_radix"))?;
    // width-inferring parsers
    for radix in [2u32, 16] {
        let r = if radix == 2 { BitVecValue::from_bit_str(&c.text) } else { BitVecValue::from_hex_str(&c.text) };
        let digits = c.text.trim_start_matches(['+', '-']).chars().count() as u32;
        let is_num = number(c.text.strip_prefix(['+', '-']).unwrap_or(&c.text), radix).is_some();
        let two_signs = c.text.strip_prefix("-+").is_some_and(|b| number(b, radix).is_some());
        match r {
            Ok(v) if is_num => {
                let ew = digits * if radix == 2 { 1 } else { 4 } + c.text.starts_with('-') as u32;
                expect_eq(v.width(), ew, || format!("inferred width (radix {radix}) of {:?}", c.text))?;
            }
            Ok(_) if two_signs => {}
            Ok(v) => return Err(format!("width-inferring parse (radix {radix}) accepted {:?} as {}", c.text, show(&v))),
            Err(e) if is_num => return Err(format!("width-inferring parse (radix {radix}) of {:?}: {:?}", c.text, e.kind)),
            Err(_) => {}
        }
    }
    Ok(())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        suites: vec![
            Box::new(Suite {
                name: "c14_reject",
                rule: "numerals around the limits of the width, mutated by up to three insertions/replacements/removals of \
                       foreign characters, and free text; non-trivial: must be rejected, more than one byte",
                quick: 2_000_000,
                thorough: 32_000_000,
                strat: text_case,
                check: c14_check,
        }),
            Box::new(Suite {
                name: "c14_wide",
                rule: "the same on widths up to 70000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 9_000,
                thorough: 135_000,
                strat: || text_case_of(wide_width(70_000)),
                check: c14_check,
            }),
            Box::new(Suite {
                name: "c14_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || text_case_of(huge_width()),
                check: c14_check,
            }),
        ],
    }
}
