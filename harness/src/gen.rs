//! Generators for widths, values and related pairs. Raw material is generated independently and then
//! materialised, so that everything shrinks without dependent strategies.

use crate::dict::dict;
use crate::model::{nwords, Bv};
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A width of at least 1, biased to word boundaries; at most `max`.
pub fn width(max: u32) -> BoxedStrategy<u32> {
    let words = (max / 64).clamp(1, 20);
    let dict_widths: Vec<u32> = {
        let mut v: Vec<u32> =
            dict().ints.iter().filter(|i| **i >= 1 && **i <= max as u64).map(|i| *i as u32).collect();
        v.push(1);
        v
    };
    let dict_weight = if dict().fresh { 10 } else { 3 };
    one_of![
        6 => 1u32..=8,
        6 => 1u32..=64,
        8 => (1..=words, 0u32..=4).prop_map(|(k, d)| (k * 64 + d).saturating_sub(2).max(1)),
        6 => 65u32..=192,
        4 => 1u32..=1100,
        dict_weight => proptest::sample::select(dict_widths),
        1 => 1u32..=max,
    ]
    .prop_map(move |w| w.clamp(1, max))
    .boxed()
}

/// Widths far above those of `width`: many words, powers of two, around 2^16 and beyond.
pub fn wide_width(max: u32) -> BoxedStrategy<u32> {
    let mut dict_widths: Vec<u32> = dict().ints.iter().filter(|i| **i >= 400 && **i <= max as u64).map(|i| *i as u32).collect();
    dict_widths.push(1024);
    one_of![
        1 => proptest::sample::select(dict_widths),
        4 => 1101u32..=5000,
        3 => (1u32..=80, 0u32..=4).prop_map(|(k, d)| k * 64 + d - 2),
        2 => (10u32..=17, 0u32..=4, 0u32..=64).prop_map(|(e, d, far)| (1u32 << e) + d - 2 + (far & !63)),
        2 => 5001u32..=20_000,
        2 => 65_400u32..=65_700,
        1 => 20_001u32..=140_000,
    ]
    .prop_map(move |w| w.clamp(1, max))
    .boxed()
}

/// Widths of millions of bits: around 2^16 words and above.
pub fn huge_width() -> BoxedStrategy<u32> {
    one_of![
        3 => (65_530u32..=65_545, 0u32..=4).prop_map(|(k, d)| k * 64 + d - 2),
        1 => 4_194_305u32..=9_000_000,
    ]
    .boxed()
}

/// Operations that take quadratic time (multiplication, decimal numerals) are left out above this width.
pub const QUADRATIC: u32 = 200_000;

/// width including 0
pub fn width0(max: u32) -> BoxedStrategy<u32> {
    one_of![1 => Just(0u32), 20 => width(max)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub kind: u8,
    pub k: u32,
    pub style: u64,
    pub words: Vec<u64>,
}

pub fn raw() -> impl Strategy<Value = Raw> {
    (0u8..32, any::<u32>(), any::<u64>(), proptest::collection::vec(any::<u64>(), 1..=6))
        .prop_map(|(kind, k, style, words)| Raw { kind, k, style, words })
}

fn low_bits(w: u32, n: u32) -> Bv {
    let mut b = Bv::zero(w);
    for i in 0..nwords(w) {
        let lo = i as u32 * 64;
        b.x[i] = if n >= lo + 64 {
            u64::MAX
        } else if n > lo {
            (1u64 << (n - lo)) - 1
        } else {
            0
        };
    }
    Bv::new(w, b.x)
}

impl Raw {
    fn word(&self, i: usize) -> u64 {
        let l = self.words.len();
        self.words[i % l].rotate_left((i / l * 13) as u32)
    }

    /// Turns the raw material into a value of width `w`.
    pub fn at(&self, w: u32) -> Bv {
        let n = nwords(w);
        if w == 0 {
            return Bv::zero(0);
        }
        // bias positions to word boundaries half of the time
        let pos = if self.k & 1 == 0 {
            (self.k >> 1) % w
        } else {
            let b = ((self.k >> 3) % (n as u32 + 1)) * 64;
            match (self.k >> 1) & 3 {
                0 => b,
                1 => b.saturating_sub(1),
                2 => b + 1,
                _ => b.saturating_sub(2),
            }
            .min(w - 1)
        };
        match self.kind {
            0 => Bv::zero(w),
            1 => Bv::from_u64(w, 1),
            2 | 3 => Bv::from_u64(w, self.words[0] & 0xff),
            4 | 5 => Bv::ones(w),
            6 | 7 => Bv::zero(w).with_bit(w - 1, true), // most negative
            8 => Bv::ones(w).with_bit(w - 1, false),    // most positive
            9 => Bv::zero(w).with_bit(pos, true),
            10 => low_bits(w, pos),
            11 => low_bits(w, pos).not(), // -(2^pos)
            12 => Bv::ones(w).with_bit(pos, false),
            13 => {
                // only one word is non-zero
                let mut b = Bv::zero(w);
                let i = self.k as usize % n;
                b.x[i] = self.words[0] | 1;
                Bv::new(w, b.x)
            }
            14 => {
                let d = dict();
                Bv::from_u64(w, d.ints[self.k as usize % d.ints.len()])
            }
            15 => Bv::from_u64(w, self.words[0] & 0xff).negate(),
            16 => {
                // runs of equal bits
                let mut bits = Vec::with_capacity(w as usize);
                let mut v = self.style & 1 == 1;
                let mut i = 0;
                while bits.len() < w as usize {
                    let run = (self.word(i) % 97) as usize + 1;
                    for _ in 0..run {
                        if bits.len() < w as usize {
                            bits.push(v);
                        }
                    }
                    v = !v;
                    i += 1;
                }
                Bv::from_bits(&bits)
            }
            17 => Bv::from_u64(w, self.words[0]), // one full random word
            18 => {
                // top word only
                let mut b = Bv::zero(w);
                b.x[n - 1] = self.words[0];
                Bv::new(w, b.x)
            }
            19..=25 => {
                // words of mixed style
                let d = dict();
                let x = (0..n)
                    .map(|i| {
                        let r = self.word(i);
                        match (self.style.rotate_right(4 * i as u32)) & 15 {
                            0 => 0,
                            1 => u64::MAX,
                            2 => r,
                            3 => 1,
                            4 => 1 << 63,
                            5 => r & 0xff,
                            6 => u64::MAX - (r & 1),
                            7 => 0,
                            8 => u64::MAX,
                            9 => r,
                            10 => 1 << (r & 63),
                            11 => (1 << (r & 63)) - 1,
                            12 => u64::MAX << (r & 63),
                            // around the middle of the word
                            13 => (1u64 << 32).wrapping_add(r & 3).wrapping_sub(2),
                            _ => d.ints[(r % d.ints.len() as u64) as usize],
                        }
                    })
                    .collect();
                Bv::new(w, x)
            }
            // a small value near the width, where shift amounts and bit indices end
            26 => Bv::from_u64(w, (w as u64 + (self.k & 7) as u64).saturating_sub(3)),
            27 if w <= 20_000 => self.decimal(w),
            _ => Bv::new(w, (0..n).map(|i| self.word(i)).collect()),
        }
    }

    /// A value with structure in base ten: groups of 19 digits, many of which are zeros, nines, powers of ten.
    fn decimal(&self, w: u32) -> Bv {
        const GROUP: u64 = 10_000_000_000_000_000_000;
        let groups = (w as u64 * 30103 / 100_000 / 19) as usize + 1;
        let r = self.words[0];
        let v = if w > 1500 || r & 3 == 0 {
            // a multiple of a power of ten, or next to one
            let digits = ((r >> 8) % (groups as u64 * 19)) as u32;
            let v = num_bigint::BigUint::from(10u32).pow(digits) * ((self.k & 15) + 1);
            match (r >> 2) & 3 {
                0 => v + 1u32,
                1 => v - 1u32,
                _ => v,
            }
        } else {
            let used = 1 + (r >> 8) as usize % groups;
            let mut v = num_bigint::BigUint::from(0u32);
            for i in 0..used {
                let group = match self.style.rotate_right(3 * i as u32) & 7 {
                    0 | 1 => 0,
                    2 => GROUP - 1,
                    3 => 1,
                    4 => GROUP / 10,
                    5 => 10u64.pow((self.word(i) % 19) as u32),
                    6 => self.word(i) % 1000,
                    _ => self.word(i) % GROUP,
                };
                v = v * GROUP + group;
            }
            v
        };
        let v = Bv::from_u(w, &v);
        if self.k >> 31 == 1 {
            v.negate()
        } else {
            v
        }
    }
}

/// a value with its width
pub fn bv(max: u32) -> BoxedStrategy<Bv> {
    (width(max), raw()).prop_map(|(w, r)| r.at(w)).boxed()
}

pub fn huge_bv() -> BoxedStrategy<Bv> {
    (huge_width(), raw()).prop_map(|(w, r)| r.at(w)).boxed()
}

pub fn wide_bv(max: u32) -> BoxedStrategy<Bv> {
    (wide_width(max), raw()).prop_map(|(w, r)| r.at(w)).boxed()
}

pub fn bv0(max: u32) -> BoxedStrategy<Bv> {
    (width0(max), raw()).prop_map(|(w, r)| r.at(w)).boxed()
}

/// Derives a value related to `a` (same width).
pub fn related(a: &Bv, rel: u8, k: u32, other: &Bv) -> Bv {
    let n = a.x.len();
    if a.w == 0 {
        return a.clone();
    }
    let one = Bv::from_u64(a.w, 1);
    match rel {
        0..=5 => other.clone(),
        6 => a.clone(),
        7 => a.add(&one),
        8 => a.sub(&one),
        9 => {
            let p = k % a.w;
            a.with_bit(p, !a.bit(p))
        }
        10 => a.not(),
        11 => a.negate(),
        12 => {
            // equal except one word
            let i = k as usize % n;
            let mut x = a.x.clone();
            x[i] = other.x[i];
            Bv::new(a.w, x)
        }
        13 => a.with_bit(a.w - 1, !a.bit(a.w - 1)),
        14 => {
            // equal upper words, other lower words
            let i = k as usize % n;
            let mut x = a.x.clone();
            x[..i].copy_from_slice(&other.x[..i]);
            Bv::new(a.w, x)
        }
        _ => {
            // a word moved to another place
            let (i, j) = (k as usize % n, (k >> 8) as usize % n);
            let mut x = a.x.clone();
            x.swap(i, j);
            Bv::new(a.w, x)
        }
    }
}

/// two values of equal width, often related
pub fn pair(max: u32) -> BoxedStrategy<(Bv, Bv)> {
    pair_of(width(max))
}

pub fn pair_of(w: BoxedStrategy<u32>) -> BoxedStrategy<(Bv, Bv)> {
    (w, raw(), raw(), 0u8..16, any::<u32>())
        .prop_map(|(w, ra, rb, rel, k)| {
            let a = ra.at(w);
            let b = related(&a, rel, k, &rb.at(w));
            (a, b)
        })
        .boxed()
}

/// A position below `w` from raw material, biased to boundaries.
pub fn pos_below(k: u32, w: u32) -> u32 {
    let b = match k & 3 {
        0 if (k >> 2) & 7 == 0 => {
            let d = dict();
            d.ints[(k >> 5) as usize % d.ints.len()].min(w as u64 - 1) as u32
        }
        0 => (k >> 2) % w,
        1 => ((k >> 4) % (nwords(w) as u32 + 1)) * 64 + ((k >> 2) & 3),
        2 => (((k >> 4) % (nwords(w) as u32 + 1)) * 64).saturating_sub((k >> 2) & 3),
        _ => w - 1 - ((k >> 2) % w).min((k >> 2) & 7),
    };
    b.min(w - 1)
}

/// every value of every width 1..=n as case number
pub fn small_bv(max_w: u32) -> BoxedStrategy<Bv> {
    (1..=max_w, any::<u64>()).prop_map(|(w, v)| Bv::from_u64(w, v)).boxed()
}

pub fn big_of(b: &Bv, negative: bool) -> BigInt {
    let v = BigInt::from(b.u());
    if negative {
        -v
    } else {
        v
    }
}
