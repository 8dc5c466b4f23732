//! C20: interner; C22: serialisation; C23: contracts of checked and release builds.

use super::arith::width_labels;
use super::arrays::*;
use super::identity::along_path;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use baa::*;
use num_bigint::BigInt;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InternCase {
    vals: Vec<Bv>,
    /// (value, path, clone/switch control)
    ops: Vec<(u16, u8, u8)>,
}

fn intern_vals(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<Bv>> {
    proptest::collection::vec((width(300), raw(), 0u8..24, any::<u32>()), n).prop_map(|vs| {
        let mut out: Vec<Bv> = vec![];
        for (w, r, rel, k) in vs {
            let v = match out.last() {
                // same words at another width, more or fewer words, related values
                Some(p) if rel >= 22 => p.resize(p.w + 1),
                Some(p) if rel >= 20 => p.resize(p.w + 64),
                Some(p) if rel >= 19 => p.resize((p.w / 64).max(1) * 64),
                Some(p) if rel >= 12 => related(p, rel - 6, k, &r.at(p.w)),
                _ => match rel {
                    0 | 1 => Bv::from_u64(w, (k % 12) as u64),
                    // multi-word patterns that occur inside the store's own constants
                    2 => {
                        let n = 2 + k % 3;
                        Bv::new(n * 64, (0..n as u64).map(|i| i + (k >> 8 & 7) as u64).collect())
                    }
                    _ => r.at(w),
                },
            };
            out.push(v);
        }
        out
    })
}

fn intern_case() -> BoxedStrategy<InternCase> {
    (intern_vals(2..=10), proptest::collection::vec(any::<(u16, u8, u8)>(), 1..=30))
        .prop_map(|(vals, ops)| InternCase { vals, ops })
        .boxed()
}

fn intern_long() -> BoxedStrategy<InternCase> {
    (intern_vals(100..=300), proptest::collection::vec(any::<(u16, u8, u8)>(), 400..=800))
        .prop_map(|(vals, ops)| InternCase { vals, ops })
        .boxed()
}

#[derive(Clone)]
struct InternState {
    i: ValueInterner,
    known: HashMap<Bv, BitVecValueIndex>,
}

impl InternState {
    fn check(&self, v: &Bv, ix: BitVecValueIndex, obs: &mut Obs, ctx: &dyn Fn() -> String) -> Res {
        expect_eq(ix.width(), v.w, || format!("{}: width of the index of {v:?}", ctx()))?;
        let words = self.i.words();
        if ix.to_range().end > words.len() {
            return Err(format!("{}: index of {v:?} outside the store", ctx()));
        }
        expect(&words.get_ref(ix), v, || format!("{}: looking up {v:?}", ctx()))?;
        for (what, got, e) in [
            ("is_zero", ValueInterner::is_zero(ix), v.is_zero()),
            ("is_one", ValueInterner::is_one(ix), v.is_one()),
        ] {
            if got != e {
                let msg = || format!("{}: {what} of the index of {v:?} is {got}", ctx());
                // only the exact shape of the recorded finding: a missed zero/one wider than a word
                if e && v.w > 64 {
                    obs.known("C20", "wide-zero-one-test", msg)?;
                } else {
                    return Err(msg());
                }
            }
        }
        Ok(())
    }
}

fn c20_check(c: &InternCase, obs: &mut Obs) -> Res {
    let first = if c.ops.len() % 2 == 0 { ValueInterner::new() } else { ValueInterner::default() };
    let mut st = vec![InternState { i: first, known: HashMap::new() }];
    let mut cur = 0;
    let (mut hits, mut wide) = (0, 0);
    for (n, (v, path, ctl)) in c.ops.iter().enumerate() {
        if *ctl < 6 && st.len() < 3 {
            st.push(st[cur].clone());
        } else if *ctl < 12 && st.len() > 1 {
            // an older interner is overwritten
            let (src, known) = (st[cur].i.clone(), st[cur].known.clone());
            let at = (cur + 1) % st.len();
            st[at].i.clone_from(&src);
            st[at].known = known;
        }
        if *ctl % 4 == 0 {
            cur = (*ctl as usize / 4) % st.len();
        }
        let v = &c.vals[*v as usize % c.vals.len()];
        let s = &mut st[cur];
        let value = along_path(v, *path);
        let ix = if path & 0x80 == 0 { s.i.get_index(&value) } else { s.i.get_index(BitVecValueRef::from(&value)) };
        let ctx = || format!("step {n} of {c:?}");
        wide += (v.w > 64) as u32;
        match s.known.get(v) {
            Some(old) => {
                hits += 1;
                expect_eq(ix, *old, || format!("{}: index of {v:?} on re-interning", ctx()))?;
            }
            None => {
                s.known.insert(v.clone(), ix);
            }
        }
        s.check(v, ix, obs, &ctx)?;
    }
    obs.label_if(hits > 0, "value interned again");
    obs.label_if(st.len() > 1, "cloned interner");
    obs.label_if(wide > 0, "multi-word value");
    obs.nontrivial_if(hits > 0 && c.ops.len() > 2);
    for (k, s) in st.iter().enumerate() {
        let mut seen: HashMap<BitVecValueIndex, &Bv> = HashMap::new();
        for (v, ix) in &s.known {
            let ctx = || format!("interner {k} after {} steps of {c:?}", c.ops.len());
            s.check(v, *ix, obs, &ctx)?;
            if let Some(o) = seen.insert(*ix, v) {
                return Err(format!("{}: {o:?} and {v:?} share an index", ctx()));
            }
        }
    }
    Ok(())
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        suites: vec![
            Box::new(Suite {
                name: "c20_histories",
                rule: "1-30 interning requests over 2-10 related values of mixed widths (computed along different paths), with clones; \
                       non-trivial: more than two requests, a value interned again",
                quick: 1_500_000,
                thorough: 24_000_000,
                strat: intern_case,
                check: c20_check,
            }),
            Box::new(Suite {
                name: "c20_long",
                rule: "400-800 interning requests over 100-300 values, all indices re-read at the end; non-trivial: a value interned again",
                quick: 2_500,
                thorough: 30_000,
                strat: intern_long,
                check: c20_check,
            }),
            Box::new(Suite {
                name: "c20_many",
                rule: "1000..300000 values of up to four widths, interned, interned again, looked up, with a copy taken on the way; every case non-trivial",
                quick: 40,
                thorough: 600,
                strat: || many_interned(),
                check: c20_many,
            }),
            Box::new(Suite {
                name: "c20_wide",
                rule: "1-20 requests over 2-8 values of up to 140000 bits; non-trivial: more than two requests, a value interned again",
                quick: 20_000,
                thorough: 300_000,
                strat: || intern_of(wide_width(140_000)),
                check: c20_check,
            }),
            Box::new(Suite {
                name: "c20_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || intern_of(huge_width()),
                check: c20_check,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C22

/// The value inside of other data.
#[derive(Serialize, Deserialize)]
struct Around<T> {
    before: u32,
    value: T,
    after: Option<String>,
}

fn via_bincode<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let b = bincode::serialize(v).map_err(|e| format!("bincode serialisation failed: {e}"))?;
    let bad = |e| format!("bincode deserialisation failed: {e}");
    match b.len() % 3 {
        0 => bincode::deserialize(&b).map_err(bad),
        1 => {
            // several in one stream
            let mut stream = Vec::new();
            for x in [v, v] {
                bincode::serialize_into(&mut stream, x).map_err(|e| format!("bincode serialisation failed: {e}"))?;
            }
            let mut rest = std::io::Cursor::new(stream);
            let _: T = bincode::deserialize_from(&mut rest).map_err(bad)?;
            let second = bincode::deserialize_from(&mut rest).map_err(bad)?;
            expect_eq(rest.position() as usize, rest.get_ref().len(), || "bytes read from the stream".into())?;
            Ok(second)
        }
        _ => {
            let b = bincode::serialize(&(1u8, Some(v), "after")).map_err(|e| format!("bincode serialisation failed: {e}"))?;
            let (x, r, y): (u8, Option<T>, String) = bincode::deserialize(&b).map_err(bad)?;
            expect_eq((x, y.as_str()), (1, "after"), || "neighbours in bincode".into())?;
            r.ok_or_else(|| "the value is lost in bincode".into())
        }
    }
}

fn via_json<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let text = serde_json::to_string(v).map_err(|e| format!("JSON serialisation failed: {e}"))?;
    let bad = |how: &str, e: serde_json::Error| format!("JSON deserialisation ({how}) failed: {e} in {text}");
    match text.len() % 7 {
        0 => serde_json::from_slice(&serde_json::to_vec(v).map_err(|e| bad("to_vec", e))?).map_err(|e| bad("from_slice", e)),
        1 => serde_json::from_reader(std::io::Cursor::new(&text)).map_err(|e| bad("from_reader", e)),
        2 => serde_json::from_value(serde_json::to_value(v).map_err(|e| bad("to_value", e))?).map_err(|e| bad("from_value", e)),
        3 => serde_json::from_str(&serde_json::to_string_pretty(v).map_err(|e| bad("pretty", e))?).map_err(|e| bad("pretty", e)),
        4 => {
            let mut r: Vec<T> = serde_json::from_str(&format!(" [ {text} , {text} ] ")).map_err(|e| bad("list", e))?;
            r.pop().ok_or_else(|| "empty list".into())
        }
        5 => {
            let t = format!("{{\"after\":\"x\",\"value\":{text},\"before\":7}}");
            let r: Around<T> = serde_json::from_str(&t).map_err(|e| bad("member", e))?;
            expect_eq((r.before, r.after.as_deref()), (7, Some("x")), || "neighbours in JSON".into())?;
            Ok(r.value)
        }
        _ => serde_json::from_str(&text).map_err(|e| bad("from_str", e)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SerdeCase {
    v: Bv,
    path: u8,
    other: Bv,
}

fn c22_values(c: &SerdeCase, obs: &mut Obs) -> Res {
    width_labels(c.v.w, obs);
    obs.nontrivial_if(!c.v.is_zero() && c.v.w > 1);
    let v = along_path(&c.v, c.path);
    for (what, r) in [("bincode", via_bincode(&v)), ("JSON", via_json(&v))] {
        let r = r.map_err(|e| format!("{:?}: {e}", c.v))?;
        expect(&r, &c.v, || format!("{what} round trip of {:?}", c.v))?;
        expect_eq(r == v, true, || format!("{what} round trip of {:?} compares equal", c.v))?;
        expect_eq((hash64(&r), r.cmp(&v)), (hash64(&v), std::cmp::Ordering::Equal), || format!("hash and order after {what} of {:?}", c.v))?;
        // later operations
        if c.v.w > 0 {
            expect(&BitVecOps::add(&r, &c.other.val()), &c.v.add(&c.other), || format!("add after {what}"))?;
            let mut r = r;
            r.set_bit(c.v.w - 1);
            expect(&r, &c.v.with_bit(c.v.w - 1, true), || format!("set_bit after {what}"))?;
            r.assign(&c.other.val());
            expect(&r, &c.other, || format!("assign after {what}"))?;
        }
    }
    let many = vec![v.clone(), c.other.val(), v.clone()];
    let back = via_bincode(&many)?;
    expect_eq(back == many, true, || format!("sequence of {:?}", c.v))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SerdeArr {
    c: ArrCase,
    /// where to serialise
    at: u8,
    format: u8,
}

fn c22_arrays(s: &SerdeArr, obs: &mut Obs) -> Res {
    let c = &s.c;
    let at = s.at as usize % (c.ops.len() + 1);
    let (mut a, mut m) = (Arr::new(c.kind, c.iw, &c.default), Model::new(c.iw, &c.default));
    let json = s.format % 2 == 1 && c.iw <= 64;
    let what = if json { "JSON" } else { "bincode" };
    for n in 0..=c.ops.len() {
        let ctx = || format!("step {n} ({what} at {at}) of {c:?}");
        if n == at {
            let b = match &a {
                Arr::A(v) => Arr::A(if json { via_json(v) } else { via_bincode(v) }.map_err(|e| format!("{}: {e}", ctx()))?),
                Arr::S(v) => Arr::S(if json { via_json(v) } else { via_bincode(v) }.map_err(|e| format!("{}: {e}", ctx()))?),
            };
            if let (Arr::A(x), Arr::A(y)) = (&a, &b) {
                expect_eq(x == y && y == x, true, || format!("{}: compares equal", ctx()))?;
                expect_eq(x.is_dense(), y.is_dense(), || format!("{}: representation", ctx()))?;
            }
            if let Arr::S(x) = &b {
                check_entries(x, &m, &ctx)?;
            }
            a = b;
            a.check_all(&m, &c.idx, &ctx)?;
            obs.label(match (&a, json) {
                (Arr::S(_), _) => "sparse array value",
                (Arr::A(x), _) if x.is_dense() => "dense",
                _ => "sparse",
            });
            obs.label(what);
            obs.nontrivial_if(!m.map.is_empty());
        }
        if n < c.ops.len() {
            apply_op(&mut a, &mut m, c, &c.ops[n], &ctx)?;
            if n >= at {
                a.check_at(&m, &c.idx, &ctx)?;
            }
        }
    }
    a.check_all(&m, &c.idx, &|| format!("after {c:?} ({what} at {at})"))
}

/// Arrays with many entries through both formats.
fn c22_big(c: &BigArr, obs: &mut Obs) -> Res {
    let (a, m) = build_big(c, c.kind);
    obs.nontrivial_if(m.map.len() > 8);
    let probe = big_probe(c, &m);
    for json in [false, true] {
        let what = if json { "JSON" } else { "bincode" };
        let ctx = || format!("{what} after {c:?}");
        let b = match &a {
            Arr::A(v) => Arr::A(if json { via_json(v) } else { via_bincode(v) }.map_err(|e| format!("{}: {e:.200}", ctx()))?),
            Arr::S(v) => Arr::S(if json { via_json(v) } else { via_bincode(v) }.map_err(|e| format!("{}: {e:.200}", ctx()))?),
        };
        b.check_type(&m, &ctx)?;
        b.check_at(&m, &probe, &ctx)?;
    }
    Ok(())
}

/// Interns very many values; all indices are compared with the ones given at first and re-read.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyInterned {
    n: u32,
    mul: u64,
    /// (width, every k-th value)
    widths: Vec<u32>,
    at: u32,
}

fn c20_many(c: &ManyInterned, obs: &mut Obs) -> Res {
    let val = |k: u32| {
        let w = c.widths[k as usize % c.widths.len()];
        let n = nwords(w) as u64;
        // distinct for every k: the low word is a bijection of k
        Bv::new(w, (0..n).map(|i| (k as u64 + i).wrapping_mul(c.mul | 1)).collect())
    };
    let mut i = ValueInterner::new();
    let mut known: HashMap<Bv, BitVecValueIndex> = HashMap::new();
    let mut early = None;
    for k in 0..c.n {
        let v = val(k);
        let ix = i.get_index(&v.val());
        expect_eq(ix.width(), v.w, || format!("width of the index of {v:?} (number {k}) in {c:?}"))?;
        match known.get(&v) {
            Some(old) => expect_eq(ix, *old, || format!("index of {v:?} (number {k}) on re-interning in {c:?}"))?,
            None => {
                known.insert(v, ix);
            }
        }
        if k == c.at {
            early = Some((i.clone(), known.len()));
        }
    }
    obs.nontrivial = true;
    obs.label_if(known.len() > 65536, "more than 65536 values");
    for k in (0..c.n).rev() {
        let v = val(k);
        let ix = i.get_index(&v.val());
        expect_eq(ix, known[&v], || format!("index of {v:?} (number {k}) at the end of {c:?}"))?;
        if ix.to_range().end > i.words().len() {
            return Err(format!("index of {v:?} (number {k}) outside the store in {c:?}"));
        }
        expect(&i.words().get_ref(ix), &v, || format!("looking up {v:?} (number {k}) at the end of {c:?}"))?;
    }
    let mut seen: HashMap<BitVecValueIndex, &Bv> = HashMap::new();
    for (v, ix) in &known {
        if let Some(o) = seen.insert(*ix, v) {
            return Err(format!("{o:?} and {v:?} share an index in {c:?}"));
        }
    }
    // the copy taken on the way goes on from there
    if let Some((mut e, _)) = early {
        for k in 0..=c.at.min(c.n - 1) {
            let v = val(k);
            let ix = e.get_index(&v.val());
            expect_eq(ix, known[&v], || format!("index of {v:?} (number {k}) in the copy in {c:?}"))?;
            expect(&e.words().get_ref(ix), &v, || format!("looking up {v:?} (number {k}) in the copy in {c:?}"))?;
        }
        for k in (0..c.n).rev().step_by(7) {
            let v = val(k);
            let ix = e.get_index(&v.val());
            expect(&e.words().get_ref(ix), &v, || format!("interning {v:?} (number {k}) into the copy in {c:?}"))?;
        }
    }
    Ok(())
}

fn many_interned() -> BoxedStrategy<ManyInterned> {
    (
        one_of![2 => 1000u32..=20_000, 2 => 65_000u32..=150_000, 1 => 150_000u32..=300_000],
        any::<u64>(),
        proptest::collection::vec(one_of![2 => 1u32..=64, 2 => Just(64u32), 2 => 65u32..=192], 1..=4),
        any::<u32>(),
    )
        .prop_map(|(n, mul, widths, at)| ManyInterned { n, mul, widths, at: at % n })
        .boxed()
}

/// few but very wide values
fn intern_of(w: BoxedStrategy<u32>) -> BoxedStrategy<InternCase> {
    (
        proptest::collection::vec((w, raw(), 0u8..16, any::<u32>()), 2..=8),
        proptest::collection::vec(any::<(u16, u8, u8)>(), 1..=20),
    )
        .prop_map(|(vs, ops)| {
            let mut vals: Vec<Bv> = vec![];
            for (w, r, rel, k) in vs {
                let v = match vals.last() {
                    Some(p) if rel >= 8 => related(p, rel, k, &r.at(p.w)),
                    Some(p) if rel >= 6 => p.resize(p.w + 1),
                    _ => r.at(w),
                };
                vals.push(v);
            }
            InternCase { vals, ops }
        })
        .boxed()
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        suites: vec![
            Box::new(Suite {
                name: "c22_values",
                rule: "one value of any width (0 included) computed along one of 12 paths, through bincode and JSON, then operated on; \
                       non-trivial: non-zero, wider than 1",
                quick: 750_000,
                thorough: 12_000_000,
                strat: || (bv0(700), any::<u8>(), raw()).prop_map(|(v, path, r)| SerdeCase { other: r.at(v.w), v, path }).boxed(),
                check: c22_values,
            }),
            Box::new(Suite {
                name: "c22_wide",
                rule: "the same on widths up to 140000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 10_000,
                thorough: 150_000,
                strat: || (wide_bv(140_000), any::<u8>(), raw()).prop_map(|(v, path, r)| SerdeCase { other: r.at(v.w), v, path }).boxed(),
                check: c22_values,
            }),
            Box::new(Suite {
                name: "c22_huge",
                rule: "the same on widths of 4 to 9 million bits (around 2^16 words); non-trivial as above",
                quick: 120,
                thorough: 4_000,
                strat: || (huge_bv(), any::<u8>(), raw()).prop_map(|(v, path, r)| SerdeCase { other: r.at(v.w), v, path }).boxed(),
                check: c22_values,
            }),
            Box::new(Suite {
                name: "c22_arrays",
                rule: "array histories as in c16_histories with serialisation (bincode, or JSON for index widths up to 64) at one point and \
                       the rest of the history on the deserialised array; non-trivial: something was stored before",
                quick: 400_000,
                thorough: 6_400_000,
                strat: || (arr_case(1, false), any::<u8>(), any::<u8>()).prop_map(|(c, at, format)| SerdeArr { c, at, format }).boxed(),
                check: c22_arrays,
            }),
            Box::new(Suite {
                name: "c22_large",
                rule: "arrays of 2^8..2^18 elements with up to 6000 stores, through bincode and JSON; non-trivial: more than 8 entries",
                quick: 480,
                thorough: 7_200,
                strat: || big_arr(),
                check: c22_big,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ContractCase {
    a: Bv,
    /// another width
    b: Bv,
    op: u8,
    ka: u8,
    kb: u8,
    hi: u32,
    lo: u32,
    /// an integer that does not fit `iw` bits
    iw: u32,
    u: u64,
    i: i64,
    ow: u32,
}

fn contract_case() -> BoxedStrategy<ContractCase> {
    contract_case_of(width(400))
}

fn contract_case_of(w: BoxedStrategy<u32>) -> BoxedStrategy<ContractCase> {
    (w.clone(), raw(), 0u8..4, w, raw(), any::<(u8, u8, u8)>(), any::<(u32, u32)>(), 0u32..=63, raw(), raw())
        .prop_map(|(w, ra, wmode, w2, rb, (op, ka, kb), (k1, k2), iw, ru, ri)| {
            let mut w2 = match wmode {
                0 => w + 1,
                1 => w.saturating_sub(1).max(1),
                2 => w.div_ceil(64) * 64, // same number of words
                _ => w2,
            };
            if w2 == w {
                w2 = w + 1;
            }
            let (p, q) = (pos_below(k1, w), pos_below(k2, w));
            let (lo, hi) = (p.max(q).max(1), p.min(q));
            let lo = if lo == hi { lo + 1 } else { lo };
            let u = ru.at(64).x[0];
            let u = if u >> iw == 0 { u | 1 << (iw + k1 % (64 - iw)) } else { u };
            let i = ri.at(64).x[0] as i64;
            let lim = 1i64 << iw.saturating_sub(1);
            let i = if i >= -lim && i < lim {
                if k2 & 1 == 0 { lim.wrapping_add(i & 1) } else { (-lim).wrapping_sub(1 + (i & 1)) }
            } else {
                i
            };
            ContractCase { a: ra.at(w), b: rb.at(w2), op, ka: ka % 3, kb: kb % 3, hi, lo, iw, u, i, ow: w2 }
        })
        .boxed()
}

const OPS: [&str; 22] = [
    "add", "sub", "mul", "shift_left", "shift_right", "arithmetic_shift_right", "and", "or", "xor", "is_equal", "is_not_equal",
    "is_less", "is_less_or_equal", "is_greater", "is_greater_or_equal", "is_less_signed", "is_less_or_equal_signed",
    "is_greater_signed", "is_greater_or_equal_signed", "assign", "+", "-",
];

/// Performs binary operation number `op` on operands of any width.
fn perform<A: BitVecOps, B: BitVecOps>(op: usize, x: &A, y: &B, ox: &BitVecValue, oy: &BitVecValue) {
    match OPS[op] {
        "add" => drop(x.add(y)),
        "sub" => drop(x.sub(y)),
        "mul" => drop(x.mul(y)),
        "shift_left" => drop(x.shift_left(y)),
        "shift_right" => drop(x.shift_right(y)),
        "arithmetic_shift_right" => drop(x.arithmetic_shift_right(y)),
        "and" => drop(x.and(y)),
        "or" => drop(x.or(y)),
        "xor" => drop(x.xor(y)),
        "is_equal" => _ = x.is_equal(y),
        "is_not_equal" => _ = x.is_not_equal(y),
        "is_less" => _ = x.is_less(y),
        "is_less_or_equal" => _ = x.is_less_or_equal(y),
        "is_greater" => _ = x.is_greater(y),
        "is_greater_or_equal" => _ = x.is_greater_or_equal(y),
        "is_less_signed" => _ = x.is_less_signed(y),
        "is_less_or_equal_signed" => _ = x.is_less_or_equal_signed(y),
        "is_greater_signed" => _ = x.is_greater_signed(y),
        "is_greater_or_equal_signed" => _ = x.is_greater_or_equal_signed(y),
        "assign" => {
            let mut t = ox.clone();
            t.assign(oy);
        }
        "+" => drop(ox + y),
        _ => drop(ox - y),
    }
}

fn must_panic(what: impl FnOnce() -> String, f: impl FnOnce()) -> Res {
    match catch(f) {
        Ok(()) => Err(format!("{} was not refused", what())),
        Err(_) => Ok(()),
    }
}

fn c23_check(c: &ContractCase, obs: &mut Obs) -> Res {
    width_labels(c.a.w, obs);
    obs.nontrivial = true;
    if !cfg!(debug_assertions) {
        // silent truncation
        let (eu, ei) = (Bv::from_u64(c.iw, c.u), Bv::from_i(c.iw, &BigInt::from(c.i)));
        expect(&BitVecValue::from_u64(c.u, c.iw), &eu, || format!("from_u64({}, {})", c.u, c.iw))?;
        if c.iw == 0 {
            return Ok(()); // there are no signed numbers of no bits
        }
        expect(&BitVecValue::from_i64(c.i, c.iw), &ei, || format!("from_i64({}, {})", c.i, c.iw))?;
        let mut t = Bv::ones(c.iw).val();
        t.assign_from_u64(c.u);
        expect(&t, &eu, || format!("assign_from_u64({}) at width {}", c.u, c.iw))?;
        t.assign_from_i64(c.i);
        return expect(&t, &ei, || format!("assign_from_i64({}) at width {}", c.i, c.iw));
    }
    obs.label_if(c.a.x.len() == c.b.x.len(), "same number of words");
    let op = c.op as usize % OPS.len();
    let (ox, oy) = (c.a.val(), c.b.val());
    crate::with_operand!(c.ka, c.a, |x| crate::with_operand!(c.kb, c.b, |y| {
        must_panic(|| format!("{}({:?}, {:?})", OPS[op], c.a, c.b), || perform(op, x, y, &ox, &oy))?;
    }));
    crate::with_operand!(c.ka, c.a, |x| {
        must_panic(|| format!("slice({:?}, {}, {})", c.a, c.hi, c.lo), || drop(x.slice(c.hi, c.lo)))?;
        // beyond the value
        let hi = c.a.w + (c.u % 70) as u32;
        let lo = ((c.u >> 8) % (hi as u64 + 1)) as u32;
        must_panic(|| format!("slice({:?}, {hi}, {lo})", c.a), || drop(x.slice(hi, lo)))?;
    });
    let (mut o, src) = (c.a.val(), c.b.val());
    must_panic(|| format!("assign({:?}) to a mutable view of {:?}", c.b, c.a), || BitVecValueMutRef::from(&mut o).assign(&src))?;
    must_panic(|| format!("from_u64({}, {})", c.u, c.iw), || drop(BitVecValue::from_u64(c.u, c.iw)))?;
    must_panic(|| format!("from_i64({}, {})", c.i, c.iw), || drop(BitVecValue::from_i64(c.i, c.iw)))?;
    let mut t = Bv::ones(c.iw).val();
    must_panic(|| format!("assign_from_u64({}) at width {}", c.u, c.iw), || t.assign_from_u64(c.u))?;
    must_panic(|| format!("assign_from_i64({}) at width {}", c.i, c.iw), || t.assign_from_i64(c.i))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FixedContract {
    a: Bv,
    f: u32,
    kind: u8,
}

fn c23_fixed(c: &FixedContract, obs: &mut Obs) -> Res {
    if !cfg!(debug_assertions) {
        return Ok(()); // nothing is promised
    }
    width_labels(c.a.w, obs);
    obs.nontrivial = true;
    obs.label_if(c.a.neg(), "negative");
    crate::with_operand!(c.kind, c.a, |x| {
        must_panic(|| format!("to_unsigned_fixed_point({:?}, {})", c.a, c.f), || _ = x.to_unsigned_fixed_point(c.f))?;
        must_panic(|| format!("to_signed_fixed_point({:?}, {})", c.a, c.f), || _ = x.to_signed_fixed_point(c.f))?;
    });
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArrContract {
    iw: u32,
    dw: u32,
    kind: u8,
    ix: Bv,
    bad_ix: Bv,
    d: Bv,
    bad_d: Bv,
}

fn arr_contract() -> BoxedStrategy<ArrContract> {
    (one_of![4 => 0u32..=8, 1 => 31u32..=33, 2 => 63u32..=66, 1 => 67u32..=130], data_w(), 0u8..6, raw(), raw(), 1u32..=66, 1u32..=66, any::<(bool, bool)>())
        .prop_map(|(iw, dw, kind, ri, rd, di, dd, (up_i, up_d))| {
            let wi = if up_i || iw < di { iw + di } else { iw - di };
            let wd = if up_d || dw <= dd { dw + dd } else { dw - dd };
            let kind = if kind % 3 == 0 && iw > 12 { 1 } else { kind };
            // in range as a number where possible, so that only the width can be to blame
            let ix = ri.at(iw);
            let d = rd.at(dw);
            ArrContract { iw, dw, kind, bad_ix: ix.resize(wi), ix, bad_d: d.resize(wd), d }
        })
        .boxed()
}

fn c23_arrays(c: &ArrContract, obs: &mut Obs) -> Res {
    if !cfg!(debug_assertions) {
        return Ok(()); // nothing is promised
    }
    obs.nontrivial = true;
    obs.label(["dense", "sparse", "sparse array value"][c.kind as usize % 3]);
    let default = Bv::zero(c.dw);
    let fresh = || Arr::new(c.kind, c.iw, &default);
    let what = |f: &str| format!("{f} on array kind {} ({} -> {})", c.kind % 3, c.iw, c.dw);
    let mut a = fresh();
    a.store(&c.ix, &c.d, c.kind);
    expect(&a.select(&c.ix, c.kind), &c.d, || what("correct store/select"))?;
    must_panic(|| what(&format!("select({:?})", c.bad_ix)), || drop(fresh().select(&c.bad_ix, c.kind)))?;
    must_panic(|| what(&format!("store({:?}, {:?})", c.bad_ix, c.d)), || fresh().store(&c.bad_ix, &c.d, c.kind))?;
    must_panic(|| what(&format!("store({:?}, {:?})", c.ix, c.bad_d)), || fresh().store(&c.ix, &c.bad_d, c.kind))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LimitCase {
    dw: u32,
    /// index bits above the first index width that takes more than 1 GiB
    extra: u32,
    densify: bool,
}

fn limit_case() -> BoxedStrategy<LimitCase> {
    let dw = one_of![1 => Just(1u32), 2 => 2u32..=8, 2 => 9u32..=64, 3 => 65u32..=256, 1 => 257u32..=1000,
        // one word more than a power of two: barely above the limit
        2 => (1u32..=16, 0u32..64).prop_map(|(k, d)| (64 << k) + 64 - d)];
    // Either at most 4 GiB, should the array not be refused, or more than any machine has: such an allocation fails.
    (dw, one_of![6 => 0u32..=1, 1 => 17u32..=40], any::<bool>()).prop_map(|(dw, extra, densify)| LimitCase { dw, extra, densify }).boxed()
}

const GIB: u128 = 1 << 30;

fn c23_limit(c: &LimitCase, obs: &mut Obs) -> Res {
    if !cfg!(debug_assertions) {
        return Ok(());
    }
    // if the array is not refused this may take gigabytes: one at a time
    let _g = exclusive();
    obs.nontrivial = true;
    // bits per element in the most compact representation that baa has
    let elem = match c.dw {
        1 => 1u128,
        2..=8 => 8,
        9..=64 => 64,
        _ => 64 * nwords(c.dw) as u128,
    };
    // smallest index width whose array takes more than 1 GiB
    let mut iw = 0;
    while elem << iw <= 8 * GIB {
        iw += 1;
    }
    let d = Bv::zero(c.dw).val();
    let iw = iw + c.extra;
    let what = || format!("dense array of 2^{iw} elements of {} bits ({} MiB)", c.dw, (elem << iw) >> 23);
    if c.densify {
        obs.label("by make_dense");
        must_panic(what, || ArrayValue::new_sparse(iw, &d).make_dense())
    } else {
        obs.label("by new_dense");
        must_panic(what, || drop(ArrayValue::new_dense(iw, &d)))
    }
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        suites: vec![
            Box::new(Suite {
                name: "c23_contracts",
                rule: "checked build: one of 22 binary operations on operands of different widths (often with the same number of words), a \
                       slice with hi < lo or beyond the value, and oversized integers must panic; release build: oversized integers are truncated; every case non-trivial",
                quick: 750_000,
                thorough: 12_000_000,
                strat: contract_case,
                check: c23_check,
            }),
            Box::new(Suite {
                name: "c23_wide",
                rule: "the same on widths up to 20000 bits (many words, powers of two, around 2^16); non-trivial as above",
                quick: 40_000,
                thorough: 600_000,
                strat: || contract_case_of(wide_width(20_000)),
                check: c23_check,
            }),
            Box::new(Suite {
                name: "c23_fixed_point",
                rule: "checked build: fixed-point conversions of values of 1..400 bits with 1..70 more fraction bits than the width must panic; \
                       every case non-trivial",
                quick: 150_000,
                thorough: 2_400_000,
                strat: || (width(400), raw(), one_of![2 => Just(1u32), 1 => 1u32..=70], 0u8..3)
                    .prop_map(|(w, r, by, kind)| FixedContract { a: r.at(w), f: w + by, kind }).boxed(),
                check: c23_fixed,
            }),
            Box::new(Suite {
                name: "c23_arrays",
                rule: "checked build: select/store with an index or data value of a wrong width must panic on dense and sparse arrays \
                       (numerically in range where possible); every case non-trivial",
                quick: 300_000,
                thorough: 4_800_000,
                strat: arr_contract,
                check: c23_arrays,
            }),
            Box::new(Suite {
                name: "c23_dense_limit",
                rule: "checked build: dense arrays whose storage is just above (1-4 times) or very far above 1 GiB must be refused, created directly or from \
                       a sparse array; every case non-trivial",
                quick: 160,
                thorough: 800,
                strat: limit_case,
                check: c23_limit,
            }),
        ],
    }
}
