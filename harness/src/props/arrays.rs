//! C16-C19: arrays as total maps; representation changes; equality; enumeration.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use baa::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------ model

/// A total map: the default and the entries that were stored explicitly.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub iw: u32,
    pub dw: u32,
    pub default: Bv,
    pub map: BTreeMap<Vec<u64>, Bv>,
}

impl Model {
    pub fn new(iw: u32, default: &Bv) -> Self {
        Self { iw, dw: default.w, default: default.clone(), map: BTreeMap::new() }
    }
    pub fn get(&self, i: &Bv) -> &Bv {
        self.map.get(&i.x).unwrap_or(&self.default)
    }
    pub fn put(&mut self, i: &Bv, d: &Bv) {
        self.map.insert(i.x.clone(), d.clone());
    }
    pub fn clear(&mut self) {
        self.map.clear();
        self.default = Bv::zero(self.dw);
    }
    /// all indices, if there are at most 2^`max` of them
    pub fn all(&self, max: u32) -> Option<Vec<Bv>> {
        (self.iw <= max).then(|| (0..1u64 << self.iw).map(|i| Bv::from_u64(self.iw, i)).collect())
    }
    /// Same type and same data at every index?
    pub fn agrees(&self, o: &Model) -> bool {
        let keys: BTreeSet<&Vec<u64>> = self.map.keys().chain(o.map.keys()).collect();
        let rest_agrees = self.default == o.default || (self.iw < 32 && keys.len() as u64 == 1 << self.iw);
        self.iw == o.iw
            && self.dw == o.dw
            && rest_agrees
            && keys.iter().all(|k| self.map.get(*k).unwrap_or(&self.default) == o.map.get(*k).unwrap_or(&o.default))
    }
}

// ------------------------------------------------------------------ implementation under test

#[derive(Clone)]
pub enum Arr {
    A(ArrayValue),
    S(SparseArrayValue),
}

macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Arr::A($x) => $e,
            Arr::S($x) => $e,
        }
    };
}

impl Arr {
    pub fn new(kind: u8, iw: u32, default: &Bv) -> Self {
        let d = default.val();
        match kind % 3 {
            0 => Arr::A(ArrayValue::new_dense(iw, &d)),
            1 => Arr::A(ArrayValue::new_sparse(iw, BitVecValueRef::from(&d))),
            _ => Arr::S(SparseArrayValue::new(iw, &d)),
        }
    }
    pub fn select(&self, i: &Bv, kind: u8) -> BitVecValue {
        let i = i.val();
        if kind % 2 == 0 {
            each!(self, a => a.select(&i))
        } else {
            let r = BitVecValueRef::from(&i);
            each!(self, a => a.select(r))
        }
    }
    pub fn store(&mut self, i: &Bv, d: &Bv, kind: u8) {
        let (i, d) = (i.val(), d.val());
        let (ir, dr) = (BitVecValueRef::from(&i), BitVecValueRef::from(&d));
        match kind % 4 {
            0 => each!(self, a => a.store(&i, &d)),
            1 => each!(self, a => a.store(ir, dr)),
            2 => each!(self, a => a.store(&i, dr)),
            _ => each!(self, a => a.store(ir, &d)),
        }
    }
    pub fn clear(&mut self) {
        each!(self, a => a.clear())
    }
    pub fn is_dense(&self) -> bool {
        matches!(self, Arr::A(a) if a.is_dense())
    }
    /// converts an array value to the sparse representation, via the public conversion
    pub fn sparse(&self) -> SparseArrayValue {
        match self {
            Arr::A(a) => a.clone().into(),
            Arr::S(s) => s.clone(),
        }
    }
    /// an array value with the same contents (a sparse one is rebuilt from its default and entries)
    pub fn value(&self) -> ArrayValue {
        match self {
            Arr::A(a) => a.clone(),
            Arr::S(s) => rebuild(s),
        }
    }

    pub fn check_type(&self, m: &Model, ctx: &dyn Fn() -> String) -> Res {
        let (iw, dw, wpe) = each!(self, a => (a.index_width(), a.data_width(), a.words_per_element()));
        expect_eq((iw, dw, wpe), (m.iw, m.dw, nwords(m.dw)), || format!("{}: type", ctx()))?;
        if m.iw <= 63 {
            let n = each!(self, a => a.num_elements());
            expect_eq(n, 1usize << m.iw, || format!("{}: number of elements", ctx()))?;
        }
        if let Arr::A(a) = self {
            expect_eq(a.is_dense(), !a.is_sparse(), || format!("{}: exactly one representation", ctx()))?;
        }
        Ok(())
    }

    pub fn check_at<'a>(&self, m: &Model, idx: impl IntoIterator<Item = &'a Bv>, ctx: &dyn Fn() -> String) -> Res {
        for (n, i) in idx.into_iter().enumerate() {
            expect(&self.select(i, n as u8), m.get(i), || format!("{}: select({i:?})", ctx()))?;
        }
        Ok(())
    }

    pub fn check_all(&self, m: &Model, palette: &[Bv], ctx: &dyn Fn() -> String) -> Res {
        self.check_type(m, ctx)?;
        self.check_at(m, palette, ctx)?;
        match m.all(8) {
            Some(all) => self.check_at(m, &all, ctx),
            None => {
                let keys: Vec<Bv> = m.map.keys().map(|k| Bv::new(m.iw, k.clone())).collect();
                self.check_at(m, &keys, ctx)
            }
        }
    }
}

/// New sparse array from the reported default and the reported entries.
pub fn rebuild(s: &SparseArrayValue) -> ArrayValue {
    let mut a = ArrayValue::new_sparse(s.index_width(), &s.default());
    for (i, d) in s.non_default_entries() {
        a.store(&i, &d);
    }
    a
}

/// C19's statement for one sparse array.
pub fn check_entries(s: &SparseArrayValue, m: &Model, ctx: &dyn Fn() -> String) -> Res {
    let default = s.default();
    expect_eq(default.width(), m.dw, || format!("{}: width of the default", ctx()))?;
    let d = Bv::new(m.dw, default.words().to_vec());
    expect(&default, &d, || format!("{}: default is canonical", ctx()))?;
    if m.iw > 20 && d != m.default {
        return Err(format!("{}: default {d:?}, expected {:?}", ctx(), m.default));
    }
    let mut seen: BTreeMap<Vec<u64>, Bv> = BTreeMap::new();
    for (i, v) in s.non_default_entries() {
        if i.width() != m.iw || v.width() != m.dw {
            return Err(format!("{}: entry of type {} -> {}", ctx(), i.width(), v.width()));
        }
        let ib = Bv::new(m.iw, i.words().to_vec());
        expect(&i, &ib, || format!("{}: entry index is canonical", ctx()))?;
        expect(&v, m.get(&ib), || format!("{}: entry at {ib:?}", ctx()))?;
        if v == default {
            return Err(format!("{}: entry at {ib:?} holds the default {d:?}", ctx()));
        }
        if seen.insert(ib.x.clone(), m.get(&ib).clone()).is_some() {
            return Err(format!("{}: index {ib:?} listed twice", ctx()));
        }
    }
    // the other ways to run through an iterator
    let n = seen.len();
    let mut it = s.non_default_entries();
    let (lo, hi) = it.size_hint();
    if lo > n || hi.is_some_and(|hi| hi < n) {
        return Err(format!("{}: size_hint ({lo}, {hi:?}) of {n} entries", ctx()));
    }
    if n <= 64 {
        expect_eq(s.non_default_entries().count(), n, || format!("{}: count of the entries", ctx()))?;
        // (the order of the entries is not specified)
        let is_entry = |e: &Option<(BitVecValue, BitVecValue)>| match e {
            Some((i, v)) => seen.get(i.words()).is_some_and(|m| same(v, m)),
            None => false,
        };
        expect_eq(is_entry(&s.non_default_entries().last()), n > 0, || format!("{}: last entry", ctx()))?;
        let mut half = s.non_default_entries();
        expect_eq(is_entry(&half.nth(n / 2)), n > 0, || format!("{}: entry number {}", ctx(), n / 2))?;
        expect_eq(half.count(), n.saturating_sub(n / 2 + 1), || format!("{}: entries after number {}", ctx(), n / 2))?;
        let folded = s.non_default_entries().fold(0, |k, e| k + is_entry(&Some(e)) as usize);
        expect_eq(folded, n, || format!("{}: entries by fold", ctx()))?;
        for _ in 0..n {
            it.next();
        }
        for _ in 0..3 {
            expect_eq(it.next(), None, || format!("{}: entry after the end", ctx()))?;
        }
    }
    // nothing is missing
    let missing = |i: &Bv| m.get(i) != &d && !seen.contains_key(&i.x);
    let all = m.all(12).unwrap_or_else(|| m.map.keys().map(|k| Bv::new(m.iw, k.clone())).collect());
    match all.iter().find(|i| missing(i)) {
        Some(i) => Err(format!("{}: index {i:?} holds {:?} but is not listed (default {d:?})", ctx(), m.get(i))),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ generation

fn dense_iw() -> impl Strategy<Value = u32> {
    one_of![12 => 0u32..=3, 8 => 4u32..=6, 2 => 7u32..=9, 1 => 10u32..=12]
}

fn any_iw() -> impl Strategy<Value = u32> {
    one_of![
        10 => dense_iw(),
        2 => 13u32..=30,
        2 => 31u32..=33,
        3 => 62u32..=66,
        2 => 67u32..=200,
    ]
}

pub fn data_w() -> impl Strategy<Value = u32> {
    one_of![3 => Just(1u32), 4 => 2u32..=8, 2 => Just(8u32), 3 => 9u32..=63, 2 => Just(64u32), 1 => Just(65u32), 4 => 66u32..=256]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Store(u8, u8, u8),
    Select(u8),
    Clear,
    Dense,
    Sparse,
    Rebuild,
    /// continue on a copy, keeping the original
    Fork,
    /// store many: fills every index (small arrays) or the whole palette with one data value
    Fill(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArrCase {
    pub iw: u32,
    pub kind: u8,
    pub default: Bv,
    pub idx: Vec<Bv>,
    pub data: Vec<Bv>,
    pub ops: Vec<Op>,
}

/// palette of indices: boundaries, neighbours, random
pub fn index_palette(iw: u32, rs: &[(Raw, u8, u32)]) -> Vec<Bv> {
    let mut out: Vec<Bv> = vec![];
    for (r, rel, k) in rs {
        let base = r.at(iw);
        let v = match out.last() {
            Some(p) if *rel >= 6 => related(p, *rel, *k, &base),
            _ => base,
        };
        out.push(v);
    }
    out
}

pub fn data_palette(dw: u32, default: &Bv, rs: &[(Raw, u8, u32)]) -> Vec<Bv> {
    let mut out = vec![default.clone(), Bv::zero(dw)];
    for (r, rel, k) in rs {
        let base = r.at(dw);
        let p = out[*k as usize % out.len()].clone();
        out.push(if *rel >= 6 { related(&p, *rel, *k, &base) } else { base });
    }
    out
}

fn palette_raw(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<(Raw, u8, u32)>> {
    proptest::collection::vec((raw(), 0u8..16, any::<u32>()), n)
}

/// `conv`: weight of representation changes
fn op(conv: u32) -> impl Strategy<Value = Op> {
    one_of![
        12 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(i, d, k)| Op::Store(i, d, k)),
        3 => any::<u8>().prop_map(Op::Select),
        1 => Just(Op::Clear),
        conv => Just(Op::Dense),
        conv => Just(Op::Sparse),
        conv => Just(Op::Rebuild),
        2 => Just(Op::Fork),
        2 => any::<u8>().prop_map(Op::Fill),
    ]
}

pub fn arr_case(conv: u32, densifiable: bool) -> BoxedStrategy<ArrCase> {
    let iw = if densifiable { dense_iw().boxed() } else { any_iw().boxed() };
    (iw, data_w(), 0u8..6, raw(), palette_raw(2..=8), palette_raw(1..=4), proptest::collection::vec(op(conv), 1..=14))
        .prop_map(|(iw, dw, kind, rd, ri, rv, ops)| {
            let default = rd.at(dw);
            let kind = match kind {
                0..=2 if iw <= 12 => 0,
                3 | 4 => 1,
                _ => 2,
            };
            ArrCase { iw, kind, idx: index_palette(iw, &ri), data: data_palette(dw, &default, &rv), default, ops }
        })
        .boxed()
}

pub fn apply_op(a: &mut Arr, m: &mut Model, c: &ArrCase, op: &Op, ctx: &dyn Fn() -> String) -> Res {
    match op {
        Op::Store(i, d, k) => {
            let (i, d) = (&c.idx[*i as usize % c.idx.len()], &c.data[*d as usize % c.data.len()]);
            a.store(i, d, *k);
            m.put(i, d);
        }
        Op::Select(i) => {
            let i = &c.idx[*i as usize % c.idx.len()];
            a.check_at(m, [i], ctx)?;
        }
        Op::Clear => {
            a.clear();
            m.clear();
        }
        Op::Dense => {
            if let Arr::A(v) = a {
                if c.iw <= 12 {
                    v.make_dense();
                    expect_eq(v.is_dense(), true, || format!("{}: dense after make_dense", ctx()))?;
                }
            }
        }
        Op::Sparse => *a = Arr::S(a.sparse()),
        Op::Rebuild => {
            if let Arr::S(s) = a {
                *a = Arr::A(rebuild(s));
            }
        }
        Op::Fill(d) => {
            let d = &c.data[*d as usize % c.data.len()];
            let idx = m.all(5).unwrap_or_else(|| c.idx.clone());
            for (n, i) in idx.iter().enumerate() {
                a.store(i, d, n as u8);
                m.put(i, d);
            }
        }
        Op::Fork => {}
    }
    Ok(())
}

fn type_labels(iw: u32, dw: u32, obs: &mut Obs) {
    obs.label(match dw {
        1 => "data width 1",
        2..=8 => "data width 2-8",
        9..=64 => "data width 9-64",
        _ => "data width >64",
    });
    obs.label(match iw {
        0 => "index width 0",
        1..=12 => "index width 1-12",
        13..=64 => "index width 13-64",
        _ => "index width >64",
    });
}

/// The history with all copies; afterwards every copy must still hold its own contents.
fn run_history(c: &ArrCase, obs: &mut Obs) -> Result<Vec<(Arr, Model)>, String> {
    type_labels(c.iw, c.default.w, obs);
    let start = || format!("new array {} of {} -> {:?}", c.kind, c.iw, c.default);
    let mut pool = vec![(Arr::new(c.kind, c.iw, &c.default), Model::new(c.iw, &c.default))];
    pool[0].0.check_all(&pool[0].1, &c.idx, &start)?;
    let (mut stores, mut overwrites, mut back, mut convs) = (0, 0, 0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        let ctx = || format!("step {n} ({op:?}) of {c:?}");
        if let Op::Fork = op {
            if pool.len() < 4 {
                let copy = pool.last().unwrap().clone();
                // alternate between continuing on the copy and on the original
                let at = if n % 2 == 0 { pool.len() } else { pool.len() - 1 };
                pool.insert(at, copy);
            } else if n % 3 == 0 {
                // an older copy is overwritten
                let (src, m) = pool.last().unwrap().clone();
                match (&mut pool[0].0, &src) {
                    (Arr::A(d), Arr::A(s)) => d.clone_from(s),
                    (Arr::S(d), Arr::S(s)) => d.clone_from(s),
                    (d, s) => *d = s.clone(),
                }
                pool[0].1 = m;
            }
        }
        let (a, m) = pool.last_mut().unwrap();
        let was_dense = a.is_dense();
        if let Op::Store(i, d, _) = op {
            stores += 1;
            let i = &c.idx[*i as usize % c.idx.len()];
            overwrites += m.map.contains_key(&i.x) as u32;
            back += (m.get(i) != &m.default && c.data[*d as usize % c.data.len()] == m.default) as u32;
        }
        apply_op(a, m, c, op, &ctx)?;
        convs += (was_dense != a.is_dense()) as u32;
        a.check_type(m, &ctx)?;
        a.check_at(m, &c.idx, &ctx)?;
    }
    obs.label_if(overwrites > 0, "overwrote an entry");
    obs.label_if(back > 0, "stored the default over an entry");
    obs.label_if(convs > 0, "changed representation");
    obs.label_if(pool.len() > 1, "several copies");
    obs.nontrivial_if(stores > 0 && c.data.iter().any(|d| d != &c.default));
    for (k, (a, m)) in pool.iter().enumerate() {
        a.check_all(m, &c.idx, &|| format!("copy {k} after {c:?}"))?;
    }
    Ok(pool)
}

// ------------------------------------------------------------------ C16

fn c16_check(c: &ArrCase, obs: &mut Obs) -> Res {
    run_history(c, obs).map(|_| ())
}

/// Larger dense arrays, sparse arrays with many entries.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigArr {
    pub iw: u32,
    pub kind: u8,
    pub default: Bv,
    pub data: Vec<Bv>,
    /// (first index, stride, count, data)
    pub runs: Vec<(u64, u64, u16, u8)>,
    pub densify: bool,
}

pub fn big_arr() -> BoxedStrategy<BigArr> {
    big_arr_of(one_of![3 => 8u32..=12, 2 => 13u32..=16, 1 => 17u32..=18].boxed(), data_w().boxed(), (1u16..=1500).boxed())
}

/// tens of thousands of entries
pub fn huge_arr() -> BoxedStrategy<BigArr> {
    big_arr_of(one_of![3 => 16u32..=18, 1 => 19u32..=64].boxed(), data_w().boxed(), one_of![1 => 1u16..=1500, 2 => 10_000u16..].boxed())
}

/// few elements of many bits
fn wide_data_arr() -> BoxedStrategy<BigArr> {
    big_arr_of(one_of![3 => 0u32..=4, 1 => 5u32..=9, 1 => 60u32..=64].boxed(), wide_width(70_000), (1u16..=6).boxed())
}

fn big_arr_of(iw: BoxedStrategy<u32>, dw: BoxedStrategy<u32>, count: BoxedStrategy<u16>) -> BoxedStrategy<BigArr> {
    (iw, dw, 0u8..3, raw(), palette_raw(1..=4),
     proptest::collection::vec((any::<u64>(), 0u8..8, any::<u64>(), count, any::<u8>()), 1..=4), any::<bool>())
        .prop_map(|(iw, dw, kind, rd, rv, runs, densify)| {
            let default = rd.at(dw);
            let m = index_mask(iw);
            let kind = if iw > 18 && kind == 0 { 1 } else { kind };
            let runs = runs
                .into_iter()
                .map(|(a, sk, st, n, d)| (if st & 1 == 0 { a & m } else { (a & 15).wrapping_sub(8) & m }, if sk < 5 { 1 } else { st & m | 1 }, n, d))
                .collect();
            BigArr { iw, kind, data: data_palette(dw, &default, &rv), default, runs, densify }
        })
        .boxed()
}

fn index_mask(iw: u32) -> u64 {
    match iw {
        0 => 0,
        64.. => u64::MAX,
        _ => (1u64 << iw) - 1,
    }
}

/// Stores all runs, into a fresh array of the given kind.
pub fn build_big(c: &BigArr, kind: u8) -> (Arr, Model) {
    let mut a = Arr::new(kind, c.iw, &c.default);
    let mut m = Model::new(c.iw, &c.default);
    let mask = index_mask(c.iw);
    for (first, stride, count, d) in &c.runs {
        for j in 0..*count as u64 {
            let i = Bv::from_u64(c.iw, first.wrapping_add(j.wrapping_mul(*stride)) & mask);
            // neighbours differ
            let d = &c.data[(*d as usize + j as usize) % c.data.len()];
            a.store(&i, d, j as u8);
            m.put(&i, d);
        }
    }
    (a, m)
}

/// every index, or all stored ones and their neighbours
pub fn big_probe(c: &BigArr, m: &Model) -> Vec<Bv> {
    let mask = index_mask(c.iw);
    m.all(12).unwrap_or_else(|| {
        let near = |k: &Vec<u64>| {
            let k = k.first().copied().unwrap_or(0);
            [k, k.wrapping_add(1) & mask, k.wrapping_sub(1) & mask].map(|x| Bv::from_u64(c.iw, x))
        };
        m.map.keys().flat_map(near).collect()
    })
}

fn c16_big(c: &BigArr, obs: &mut Obs) -> Res {
    type_labels(c.iw, c.default.w, obs);
    let (mut a, m) = build_big(c, c.kind);
    obs.nontrivial_if(m.map.len() > 8 || c.default.w > 1100 && m.map.len() > 1);
    obs.label_if(m.map.len() > 65536, "more than 65536 entries");
    let all = big_probe(c, &m);
    let ctx = || format!("after {c:?}");
    a.check_type(&m, &ctx)?;
    a.check_at(&m, &all, &ctx)?;
    if let (true, Arr::A(v)) = (c.densify && c.iw <= 18, &mut a) {
        v.make_dense();
        a.check_at(&m, &all, &ctx)?;
    }
    Ok(())
}

/// Bit arrays about as large as a bit-vector can be wide, and beyond: 2^32 bits are 512 MiB as bits and 4 GiB as bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeBits {
    iw: u32,
    ones: bool,
}

fn c16_huge_bits(c: &HugeBits, obs: &mut Obs) -> Res {
    let _g = exclusive();
    obs.nontrivial = true;
    let ones = c.ones && c.iw < 32;
    let a = catch(|| ArrayValue::new_dense(c.iw, &BitVecValue::from_bool(ones)));
    let mut a = match a {
        Ok(a) => a,
        // may count as too large
        Err(_) if cfg!(debug_assertions) && c.iw >= 32 => {
            obs.label("refused");
            return Ok(());
        }
        Err(e) => return Err(format!("creating a dense array of 2^{} one-bit elements: {e}", c.iw)),
    };
    let r = catch(move || {
        let last = Bv::ones(c.iw);
        let before = a.select(&last.val()).to_bool();
        a.store(&last.val(), &BitVecValue::from_bool(!ones));
        let after = a.select(&last.val()).to_bool();
        let first = a.select(&Bv::zero(c.iw).val()).to_bool();
        (before, after, first)
    });
    let e = (Some(ones), Some(!ones), Some(ones));
    match r {
        Ok(r) if r == e => Ok(()),
        r => Err(format!("dense array of 2^{} one-bit elements: {r:?} instead of {e:?}", c.iw)),
    }
}

/// Dense arrays of up to exactly the documented 1 GiB.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LimitArr {
    /// index bits below the largest index width that takes at most 1 GiB
    below: u32,
    default: Bv,
    data: Bv,
    index: u64,
    densify: bool,
}

fn c16_up_to_limit(c: &LimitArr, obs: &mut Obs) -> Res {
    let _g = exclusive();
    let dw = c.default.w;
    let elem = match dw {
        2..=8 => 8,
        9..=64 => 64,
        _ => 64 * nwords(dw) as u128,
    };
    let mut iw = 0;
    while elem << (iw + 1) <= 8 << 30 {
        iw += 1;
    }
    let iw = iw - c.below;
    obs.nontrivial = true;
    obs.label_if(elem << iw == 8 << 30, "exactly 1 GiB");
    let ctx = || format!("dense array of 2^{iw} elements of {dw} bits ({} MiB), {c:?}", (elem << iw) >> 23);
    let mut m = Model::new(iw, &c.default);
    let last = Bv::ones(iw);
    let some = Bv::from_u64(iw, c.index & index_mask(iw));
    let r = catch(|| {
        let mut a = if c.densify {
            let mut a = ArrayValue::new_sparse(iw, &c.default.val());
            a.store(&some.val(), &c.data.val());
            a.make_dense();
            a
        } else {
            ArrayValue::new_dense(iw, &c.default.val())
        };
        a.store(&some.val(), &c.data.val());
        a.store(&last.val(), &c.data.val());
        a
    });
    m.put(&some, &c.data);
    m.put(&last, &c.data);
    let a = Arr::A(r.map_err(|e| format!("{}: {e}", ctx()))?);
    a.check_type(&m, &ctx)?;
    let near = |k: &Bv| [k.clone(), Bv::from_u64(iw, k.x[0] ^ 1), Bv::from_u64(iw, k.x[0] ^ 1 << (iw - 1)), Bv::from_u64(iw, k.x[0] >> 1)];
    let probe: Vec<Bv> = near(&some).into_iter().chain(near(&last)).chain([Bv::zero(iw)]).collect();
    a.check_at(&m, &probe, &ctx)
}

fn limit_arr() -> BoxedStrategy<LimitArr> {
    let dw = one_of![2 => 2u32..=8, 3 => 9u32..=64, 2 => 65u32..=256, 1 => 257u32..=1000];
    (dw, one_of![2 => Just(0u32), 1 => 1u32..=3], raw(), raw(), any::<u64>(), any::<bool>(), any::<bool>())
        .prop_map(|(dw, below, d, v, index, densify, zero)| LimitArr {
            below,
            default: if zero { Bv::zero(dw) } else { d.at(dw) },
            data: v.at(dw),
            index,
            densify,
        })
        .boxed()
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        suites: vec![
            Box::new(Suite {
                name: "c16_histories",
                rule: "histories of 1-14 stores/selects/clears/representation changes/copies over palettes of 2-8 indices and 3-6 \
                       data values on a dense or sparse array of any type; every palette index of the changed copy is read after each step, \
                       all copies completely at the end; non-trivial: at least one store and a non-default data value",
                quick: 750_000,
                thorough: 12_000_000,
                strat: || arr_case(1, false),
                check: c16_check,
            }),
            Box::new(Suite {
                name: "c16_large",
                rule: "arrays of 2^8..2^18 elements with up to four runs of up to 1500 stores, read completely or at and around \
                       every stored index; non-trivial: more than 8 distinct indices stored",
                quick: 800,
                thorough: 20_000,
                strat: big_arr,
                check: c16_big,
            }),
            Box::new(Suite {
                name: "c16_many_entries",
                rule: "arrays of 2^16..2^64 elements with up to four runs of up to 65535 stores, as c16_large",
                quick: 48,
                thorough: 700,
                strat: || huge_arr(),
                check: c16_big,
            }),
            Box::new(Suite {
                name: "c16_wide_data",
                rule: "elements of up to 70000 bits, as c16_large; non-trivial: two different indices stored",
                quick: 12_000,
                thorough: 180_000,
                strat: || wide_data_arr(),
                check: c16_big,
            }),
            Box::new(Suite {
                name: "c16_up_to_limit",
                rule: "dense arrays of 128 MiB to exactly 1 GiB, two stores, elements near them read; every case non-trivial",
                quick: 12,
                thorough: 80,
                strat: limit_arr,
                check: c16_up_to_limit,
            }),
            Box::new(Suite {
                name: "c16_huge_bits",
                rule: "dense bit arrays of 2^24..2^27 and 2^32 elements (which may be refused with debug assertions), first and last element; every case non-trivial",
                quick: 8,
                thorough: 16,
                strat: || (one_of![1 => Just(32u32), 1 => 24u32..=27], any::<bool>()).prop_map(|(iw, ones)| HugeBits { iw, ones }).boxed(),
                check: c16_huge_bits,
            }),
        ],
    }
}


/// Two arrays with the same contents, built with other detours; then one element is changed.
fn c18_big(c: &BigArr, obs: &mut Obs) -> Res {
    type_labels(c.iw, c.default.w, obs);
    let kinds = if c.iw <= 18 { [c.kind % 2, c.kind / 2] } else { [1, 1] };
    let (a, m) = build_big(c, kinds[0]);
    let (mut b, _) = build_big(c, kinds[1]);
    if let (true, Arr::A(v)) = (c.densify && c.iw <= 18, &mut b) {
        v.make_dense();
    }
    let mut b = b.value();
    let a = a.value();
    obs.label_if(a.is_dense() != b.is_dense(), "mixed representations");
    obs.nontrivial_if(m.map.len() > 8);
    expect_eq((a == b, b == a), (true, true), || format!("equality of two arrays after {c:?}"))?;
    // one element at a time is changed, and changed back
    let mut keys: Vec<&Vec<u64>> = m.map.keys().collect();
    let last = index_mask(c.iw);
    let (first, last) = (vec![0; nwords(c.iw)], if c.iw == 0 { vec![] } else { vec![last] });
    keys.extend([&first, &last]);
    let step = (keys.len() / 3).max(1);
    for k in keys.iter().rev().step_by(step).take(5) {
        let i = Bv::new(c.iw, k.to_vec());
        let old = m.get(&i);
        let bit = (k.first().copied().unwrap_or(0) % c.default.w as u64) as u32;
        let new = old.with_bit(bit, !old.bit(bit));
        b.store(&i.val(), &new.val());
        expect_eq((a == b, b == a), (false, false), || format!("equality after changing element {i:?} to {new:?} after {c:?}"))?;
        b.store(&i.val(), &old.val());
        expect_eq((a == b, b == a), (true, true), || format!("equality after changing element {i:?} back after {c:?}"))?;
    }
    Ok(())
}

fn c19_big(c: &BigArr, obs: &mut Obs) -> Res {
    type_labels(c.iw, c.default.w, obs);
    let (a, m) = build_big(c, c.kind);
    obs.nontrivial_if(m.map.len() > 8);
    obs.label_if(m.map.len() > 65536, "more than 65536 entries");
    let s = a.sparse();
    let ctx = || format!("after {c:?}");
    check_entries(&s, &m, &ctx)?;
    let r = rebuild(&s);
    Arr::A(r).check_at(&m, &big_probe(c, &m), &|| format!("rebuilt after {c:?}"))
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SliceCase {
    bools: Vec<bool>,
    bytes: Vec<u8>,
    words: Vec<u64>,
}

fn slice_case() -> BoxedStrategy<SliceCase> {
    slice_case_of(one_of![2 => 0usize..=4, 4 => 0usize..=40, 2 => (0u32..=8, 0usize..=2).prop_map(|(k, d)| ((1usize << k) + d).saturating_sub(1)), 1 => 0usize..=600].boxed())
}

fn slice_case_of(len: BoxedStrategy<usize>) -> BoxedStrategy<SliceCase> {
    (len, raw(), 0u8..5, proptest::collection::vec(any::<u64>(), 1..=5))
        .prop_map(|(n, r, mode, pal)| {
            let m = r.at((n.max(1) * 8) as u32);
            let byte = |i: usize| (m.x[i / 8] >> (8 * (i % 8))) as u8;
            let pick = |i: usize| pal[byte(i) as usize % pal.len()];
            let d = crate::dict::dict();
            let word = |i: usize| match mode {
                0 => pick(i),
                1 => byte(i) as u64,
                2 => pal[0] ^ byte(i) as u64,
                3 => d.ints[(pick(i) as usize ^ i) % d.ints.len()],
                _ => pick(i).rotate_left(byte(i) as u32),
            };
            SliceCase {
                bools: (0..n).map(|i| if mode == 0 { byte(i) & 1 == 1 } else { byte(i) > 200 || mode == 1 && i > 0 }).collect(),
                bytes: (0..n).map(|i| if mode == 0 { pick(i) as u8 } else { byte(i) }).collect(),
                words: (0..n).map(word).collect(),
            }
        })
        .boxed()
}

fn model_of(dw: u32, data: &[u64]) -> Model {
    let mut iw = 0;
    while (1usize << iw) < data.len() {
        iw += 1;
    }
    let mut m = Model::new(iw, &Bv::zero(dw));
    for (i, v) in data.iter().enumerate() {
        m.put(&Bv::from_u64(iw, i as u64), &Bv::from_u64(dw, *v));
    }
    m
}

fn round_trips(a: &ArrayValue, m: &Model, what: &dyn Fn() -> String) -> Res {
    let all = m.all(18).unwrap();
    let ctx = what;
    let d = Arr::A(a.clone());
    d.check_type(m, &ctx)?;
    d.check_at(m, &all, &ctx)?;
    let s = SparseArrayValue::from(a.clone());
    let sa = Arr::S(s.clone());
    let ctx = || format!("{}, made sparse", what());
    sa.check_type(m, &ctx)?;
    sa.check_at(m, &all, &ctx)?;
    check_entries(&s, m, &ctx)?;
    let mut r = rebuild(&s);
    let ctx = || format!("{}, made sparse, rebuilt", what());
    let ra = Arr::A(r.clone());
    ra.check_type(m, &ctx)?;
    ra.check_at(m, &all, &ctx)?;
    r.make_dense();
    let ctx = || format!("{}, made sparse, rebuilt, made dense", what());
    expect_eq(r.is_dense(), true, ctx)?;
    let ra = Arr::A(r);
    ra.check_type(m, &ctx)?;
    ra.check_at(m, &all, &ctx)
}

fn c17_slices(c: &SliceCase, obs: &mut Obs) -> Res {
    obs.label(match c.words.len() {
        0 => "empty slice",
        1 => "one element",
        n if n.is_power_of_two() => "power of two",
        _ => "padded",
    });
    obs.nontrivial_if(c.words.len() > 1);
    let b: Vec<u64> = c.bools.iter().map(|b| *b as u64).collect();
    let y: Vec<u64> = c.bytes.iter().map(|b| *b as u64).collect();
    round_trips(&ArrayValue::from(c.bools.as_slice()), &model_of(1, &b), &|| format!("bools {:?}", c.bools))?;
    round_trips(&ArrayValue::from(c.bytes.as_slice()), &model_of(8, &y), &|| format!("bytes {:?}", c.bytes))?;
    round_trips(&ArrayValue::from(c.words.as_slice()), &model_of(64, &c.words), &|| format!("words {:?}", c.words))
}

fn c17_chains(c: &ArrCase, obs: &mut Obs) -> Res {
    let pool = run_history(c, obs)?;
    for (a, m) in &pool {
        let mut v = a.value();
        let ctx = || format!("value of the array after {c:?}");
        Arr::A(v.clone()).check_all(m, &c.idx, &ctx)?;
        v.make_dense();
        round_trips(&v, m, &|| format!("dense version of the array after {c:?}"))?;
    }
    Ok(())
}

/// More distinct elements than the default search is willing to count.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyCase {
    extra: u32,
    mul: u64,
    wide: bool,
    common: u8,
}

fn c17_many(c: &ManyCase, obs: &mut Obs) -> Res {
    static TWO_AT_A_TIME: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _g = TWO_AT_A_TIME.lock().unwrap_or_else(|e| e.into_inner());
    obs.nontrivial = true;
    obs.label(if c.wide { "wide elements" } else { "64-bit elements" });
    let n = (1usize << 20) + c.extra as usize;
    let elem = |i: usize| if i % 16 < c.common as usize { 7 } else { (i as u64).wrapping_mul(c.mul | 1) };
    if !c.wide {
        let data: Vec<u64> = (0..n).map(elem).collect();
        let a = ArrayValue::from(data.as_slice());
        let s = SparseArrayValue::from(a.clone());
        let iw = 21;
        expect_eq((s.index_width(), s.data_width()), (iw, 64), || "type of the sparse array".into())?;
        for i in 0..1usize << iw {
            let e = Bv::from_u64(64, data.get(i).copied().unwrap_or(0));
            let ix = BitVecValue::from_u64(i as u64, iw);
            expect(&a.select(&ix), &e, || format!("dense element {i}"))?;
            expect(&s.select(&ix), &e, || format!("sparse element {i}"))?;
        }
        let d = s.default();
        let non_default = (0..1usize << iw).filter(|i| Some(data.get(*i).copied().unwrap_or(0)) != d.to_u64()).count();
        return expect_eq(s.non_default_entries().count(), non_default, || "number of entries".into());
    }
    let iw = 21;
    let wide = |i: usize| Bv::new(65, vec![elem(i), (i & 1) as u64]);
    let mut a = ArrayValue::new_dense(iw, &Bv::zero(65).val());
    for i in 0..n {
        a.store(&BitVecValue::from_u64(i as u64, iw), &wide(i).val());
    }
    let s = SparseArrayValue::from(a.clone());
    for i in 0..1usize << iw {
        let e = if i < n { wide(i) } else { Bv::zero(65) };
        let ix = BitVecValue::from_u64(i as u64, iw);
        expect(&a.select(&ix), &e, || format!("dense element {i}"))?;
        expect(&s.select(&ix), &e, || format!("sparse element {i}"))?;
    }
    Ok(())
}

/// A slice of up to 2^26 elements that are all `base` apart from a few.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HugeSlice {
    /// 0: bools, 1: bytes, 2: words
    kind: u8,
    len: usize,
    base: u64,
    hot: Vec<(u64, u64)>,
}

fn huge_slice() -> BoxedStrategy<HugeSlice> {
    let len = one_of![6 => (17u32..=24, 0usize..=2).prop_map(|(k, d)| (1usize << k) + d - 1), 1 => (1usize << 17)..=(1usize << 25)];
    (0u8..3, len, one_of![1 => Just(0u64), 1 => Just(1u64), 1 => Just(255u64), 2 => any::<u64>()], proptest::collection::vec((any::<u64>(), any::<u64>()), 0..12))
        .prop_map(|(kind, len, base, hot)| HugeSlice { kind, len: if kind == 2 { len.min((1 << 24) + 1) } else { len }, base, hot })
        .boxed()
}

impl HugeSlice {
    fn dw(&self) -> u32 {
        [1, 8, 64][self.kind as usize]
    }
    fn word(&self, v: u64) -> u64 {
        v & [1, 0xff, u64::MAX][self.kind as usize]
    }
    fn iw(&self) -> u32 {
        (0..64).find(|k| self.len <= 1usize << k).unwrap()
    }
    fn data(&self) -> Vec<u64> {
        let mut d = vec![self.word(self.base); self.len];
        for (i, v) in &self.hot {
            let i = *i as usize;
            // a third of them at the ends
            let i = match i % 3 {
                0 => self.len - 1 - (i / 3) % self.len.min(3),
                _ => (i / 3) % self.len,
            };
            d[i] = self.word(*v);
        }
        d
    }
    fn array(&self, d: &[u64]) -> ArrayValue {
        match self.kind {
            0 => ArrayValue::from(d.iter().map(|v| *v == 1).collect::<Vec<_>>().as_slice()),
            1 => ArrayValue::from(d.iter().map(|v| *v as u8).collect::<Vec<_>>().as_slice()),
            _ => ArrayValue::from(d),
        }
    }
    fn probes(&self, d: &[u64]) -> Vec<usize> {
        let mut p: Vec<usize> = (0..d.len()).filter(|i| d[*i] != self.word(self.base)).collect();
        p.truncate(40);
        p.extend((0..self.iw()).map(|k| 1usize << k));
        p.extend([0, 65535, 65537, self.len - 2, self.len - 1, self.len, self.len + 1, (1 << self.iw()) - 1]);
        p.retain(|i| *i < 1 << self.iw());
        p
    }
}

fn one_huge_at_a_time() -> std::sync::MutexGuard<'static, ()> {
    static M: std::sync::Mutex<()> = std::sync::Mutex::new(());
    M.lock().unwrap_or_else(|e| e.into_inner())
}

fn huge_check<A: ArrayOps>(a: &A, c: &HugeSlice, d: &[u64], what: &str) -> Res {
    expect_eq((a.index_width(), a.data_width()), (c.iw(), c.dw()), || format!("type of the {what}"))?;
    for i in c.probes(d) {
        let e = Bv::from_u64(c.dw(), d.get(i).copied().unwrap_or(0));
        let got = catch(|| a.select(&BitVecValue::from_u64(i as u64, c.iw()))).map_err(|p| format!("element {i} of the {what}: {p}"))?;
        expect(&got, &e, || format!("element {i} of the {what}"))?;
    }
    Ok(())
}

fn c17_huge(c: &HugeSlice, obs: &mut Obs) -> Res {
    let _g = one_huge_at_a_time();
    obs.nontrivial = true;
    obs.label(["bools", "bytes", "words"][c.kind as usize]);
    let d = c.data();
    let a = catch(|| c.array(&d)).map_err(|p| format!("importing {} elements: {p}", c.len))?;
    huge_check(&a, c, &d, "imported slice")?;
    let s = SparseArrayValue::from(a);
    huge_check(&s, c, &d, "sparse array")?;
    // back to a dense one
    let mut b = ArrayValue::new_sparse(c.iw(), &s.default());
    for (i, v) in s.non_default_entries() {
        b.store(&i, &v);
    }
    b.make_dense();
    huge_check(&b, c, &d, "array made dense again")
}

fn c18_huge(c: &HugeSlice, obs: &mut Obs) -> Res {
    let _g = one_huge_at_a_time();
    obs.nontrivial = true;
    let d = c.data();
    let a = c.array(&d);
    let s0 = SparseArrayValue::from(a.clone());
    let mut s = ArrayValue::new_sparse(c.iw(), &s0.default());
    for (i, v) in s0.non_default_entries() {
        s.store(&i, &v);
    }
    let eq = |x: &ArrayValue, y: &ArrayValue, e: bool, what: &str| {
        expect_eq((x.is_equal(y), y.is_equal(x), x == y), (Some(e), Some(e), e), || format!("equality of {what}"))
    };
    eq(&a, &a.clone(), true, "an array and its copy")?;
    eq(&a, &s, true, "a dense and a sparse array")?;
    // a single changed element, the last one probed or another
    let at = c.probes(&d)[(c.base % c.probes(&d).len() as u64) as usize];
    let ix = BitVecValue::from_u64(at as u64, c.iw());
    let old = d.get(at).copied().unwrap_or(0);
    let mut b = a.clone();
    b.store(&ix, &BitVecValue::from_u64(old ^ 1, c.dw()));
    eq(&a, &b, false, &format!("arrays that differ at {at}"))?;
    eq(&b, &s, false, &format!("a dense and a sparse array that differ at {at}"))?;
    s.store(&ix, &BitVecValue::from_u64(old ^ 1, c.dw()));
    eq(&b, &s, true, &format!("a dense and a sparse array after the same store at {at}"))
}

fn c19_huge(c: &HugeSlice, obs: &mut Obs) -> Res {
    let _g = one_huge_at_a_time();
    obs.nontrivial = true;
    let d = c.data();
    let s = SparseArrayValue::from(c.array(&d));
    let def = s.default().to_u64().ok_or("default has no value")?;
    let n = 1usize << c.iw();
    let mut want: HashMap<u64, u64> =
        (0..n).map(|i| (i as u64, d.get(i).copied().unwrap_or(0))).filter(|(_, v)| *v != def).take(1 << 22).collect();
    obs.label(if want.len() > 1000 { "many entries" } else { "few entries" });
    let full = want.len() == 1 << 22;
    for (i, v) in s.non_default_entries() {
        expect_eq((i.width(), v.width()), (c.iw(), c.dw()), || "widths of an entry".into())?;
        let (i, v) = (i.to_u64().unwrap_or(u64::MAX), v.to_u64());
        match want.remove(&i) {
            Some(w) => expect_eq(v, Some(w), || format!("data of the entry at {i}"))?,
            None if full => {}
            None => return Err(format!("unexpected or repeated entry at {i}: {v:?}")),
        }
    }
    expect_eq(want.len(), 0, || format!("entries not enumerated, for example {:?}", want.iter().next()))
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        suites: vec![
            Box::new(Suite {
                name: "c17_slices",
                rule: "slices of 0..=600 bools, bytes and words (few distinct values, all distinct, or mixed), imported, made sparse, \
                       rebuilt and made dense, every element compared at every stage; non-trivial: more than one element",
                quick: 150_000,
                thorough: 2_400_000,
                strat: slice_case,
                check: c17_slices,
            }),
            Box::new(Suite {
                name: "c17_large_slices",
                rule: "slices of up to 150000 bools, bytes and words, around powers of two",
                quick: 24,
                thorough: 300,
                strat: || slice_case_of(one_of![1 => (10u32..=17, 0usize..=2).prop_map(|(k, d)| ((1usize << k) + d) - 1), 1 => 600usize..=150_000].boxed()),
                check: c17_slices,
            }),
            Box::new(Suite {
                name: "c17_huge",
                rule: "slices of 2^17..2^25 bools, bytes or words, around powers of two, equal apart from up to 12 elements, imported, made sparse, rebuilt and made dense, read at and around the ends, powers of two and changed elements",
                quick: 14,
                thorough: 300,
                strat: huge_slice,
                check: c17_huge,
            }),
            Box::new(Suite {
                name: "c17_chains",
                rule: "histories of stores mixed with many representation changes on arrays of up to 2^12 elements of any data width, \
                       then the whole conversion cycle; non-trivial: at least one store and a non-default data value",
                quick: 200_000,
                thorough: 3_200_000,
                strat: || arr_case(5, true),
                check: c17_chains,
            }),
            Box::new(Suite {
                name: "c17_many_distinct",
                rule: "2^20 + 1..4000 mostly distinct elements (64 or 65 bits) so that the search for a default gives up, made sparse \
                       and compared completely; every case non-trivial",
                quick: 4,
                thorough: 32,
                strat: || (1u32..4000, any::<u64>(), any::<bool>(), 0u8..=2)
                    .prop_map(|(extra, mul, wide, common)| ManyCase { extra, mul, wide, common }).boxed(),
                check: c17_many,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C18

/// Up to three arrays over a common small index/data palette.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    pub iw: [u32; 3],
    pub dw: [u32; 3],
    pub idx: Vec<Bv>,
    pub data: Vec<Bv>,
    pub kind: [u8; 3],
    pub default: [u8; 3],
    /// shared stores, then per array its own
    pub common: Vec<(u8, u8)>,
    pub own: [Vec<(u8, u8)>; 3],
    /// per array: order of the common stores, final touches
    pub twist: [u8; 3],
    /// fill the array completely with this data first
    pub fill: [Option<u8>; 3],
}

pub fn eq_case() -> BoxedStrategy<EqCase> {
    let st = |n: std::ops::RangeInclusive<usize>| proptest::collection::vec(any::<(u8, u8)>(), n);
    (
        (one_of![8 => 0u32..=2, 4 => 3u32..=6, 1 => 7u32..=10, 1 => Just(32u32), 2 => 63u32..=66, 1 => 67u32..=140], data_w()),
        (palette_raw(1..=5), raw(), palette_raw(1..=2)),
        any::<[u8; 3]>(),
        [0u8..6, 0u8..6, 0u8..6],
        st(0..=5),
        [st(0..=1), st(0..=1), st(0..=2)],
        any::<[u8; 3]>(),
        [proptest::option::weighted(0.3, any::<u8>()), proptest::option::weighted(0.3, any::<u8>()), proptest::option::weighted(0.3, any::<u8>())],
        (0u8..12, 1u32..=2, any::<bool>()),
    )
        .prop_map(|((iw, dw), (ri, rd, rv), kind, default, common, own, twist, fill, (tmode, delta, second))| {
            let (mut iws, mut dws) = ([iw; 3], [dw; 3]);
            let j = 1 + second as usize;
            match tmode {
                0 => iws[j] = iw + delta,
                1 => dws[j] = dw + delta,
                _ => {}
            }
            let d = rd.at(dw);
            // same default for all most of the time
            let default = default.map(|x| if x < 4 { 0 } else { x });
            EqCase { iw: iws, dw: dws, idx: index_palette(iw, &ri), data: data_palette(dw, &d, &rv), kind, default, common, own, twist, fill }
        })
        .boxed()
}

pub fn build_eq(c: &EqCase, j: usize) -> (Arr, Model) {
    let (iw, dw) = (c.iw[j], c.dw[j]);
    let dense_ok = iw <= 12;
    let idx = |i: u8| c.idx[i as usize % c.idx.len()].resize(iw);
    let data = |d: u8| c.data[d as usize % c.data.len()].resize(dw);
    let default = data(c.default[j]);
    let kind = if dense_ok { c.kind[j] % 2 } else { 1 };
    let (mut a, mut m) = (Arr::new(kind, iw, &default), Model::new(iw, &default));
    let mut put = |a: &mut Arr, i: &Bv, d: &Bv, k: u8| {
        a.store(i, d, k);
        m.put(i, d);
    };
    if let (Some(f), true) = (c.fill[j], iw <= 6) {
        for i in 0..1u64 << iw {
            put(&mut a, &Bv::from_u64(iw, i), &data(f), i as u8);
        }
    }
    let t = c.twist[j];
    if t & 1 == 1 {
        // detour: other contents first, later overwritten
        for (i, d) in &c.common {
            put(&mut a, &idx(*i), &data(d.wrapping_add(1)), *d);
        }
    }
    let mut stores: Vec<(Bv, Bv)> = c.common.iter().chain(&c.own[j]).map(|(i, d)| (idx(*i), data(*d))).collect();
    if t & 2 == 2 {
        // keep only the last store per index, in another order
        let mut last: BTreeMap<Vec<u64>, (Bv, Bv)> = BTreeMap::new();
        for (i, d) in stores {
            last.insert(i.x.clone(), (i, d));
        }
        stores = last.into_values().rev().collect();
    }
    for (n, (i, d)) in stores.iter().enumerate() {
        put(&mut a, i, d, n as u8);
    }
    // change the representation along the way
    match t >> 2 & 7 {
        1 => a = Arr::A(rebuild(&a.sparse())),
        2 | 3 if dense_ok => {
            if let Arr::A(v) = &mut a {
                v.make_dense();
            }
        }
        4 if dense_ok => {
            let mut v = rebuild(&a.sparse());
            v.make_dense();
            a = Arr::A(v);
        }
        _ => {}
    }
    (a, m)
}

fn c18_check(c: &EqCase, obs: &mut Obs) -> Res {
    type_labels(c.iw[0], c.dw[0], obs);
    let arrs: Vec<(Arr, Model)> = (0..3).map(|j| build_eq(c, j)).collect();
    let (mut equal, mut diff) = (0, 0);
    for (i, (a, ma)) in arrs.iter().enumerate() {
        for (j, (b, mb)) in arrs.iter().enumerate() {
            let (a, b) = (a.value(), b.value());
            let same_type = ma.iw == mb.iw && ma.dw == mb.dw;
            let e = same_type.then(|| ma.agrees(mb));
            if i != j {
                match e {
                    Some(true) => equal += 1,
                    Some(false) => diff += 1,
                    None => obs.label("different types"),
                }
                obs.label_if(e == Some(true) && ma.default != mb.default, "equal with different initial defaults");
                obs.label_if(e.is_some() && a.is_dense() != b.is_dense(), "mixed representations");
            }
            let ctx = || format!("arrays {i} and {j} of {c:?} (dense: {}, {})", a.is_dense(), b.is_dense());
            expect_eq(a.is_equal(&b), e, || format!("is_equal of {}", ctx()))?;
            let e = e.unwrap_or(false);
            expect_eq(a == b, e, || format!("== of {}", ctx()))?;
            expect_eq(a != b, !e, || format!("!= of {}", ctx()))?;
            let (va, vb) = (Value::Array(a.clone()), Value::Array(b.clone()));
            expect_eq(va == vb, e, || format!("Value == of {}", ctx()))?;
            let bv = c.data[0].val();
            expect_eq(va == Value::BitVec(bv.clone()) || Value::BitVec(bv.clone()) == va, false, || "array == bit vector".into())?;
            match ArrayValue::try_from(va.clone()) {
                Ok(x) => expect_eq(x == a, true, || "unwrapped array".into())?,
                Err(()) => return Err("wrapped array does not unwrap".into()),
            }
            if BitVecValue::try_from(va).is_ok() {
                return Err("wrapped array unwraps to a bit vector".into());
            }
        }
    }
    // bit vectors in the wrapper
    for (x, y) in [(0, 0), (0, 1), (1, 2)] {
        let (x, y) = (&c.data[x % c.data.len()], &c.data[y % c.data.len()]);
        for y in [y.clone(), y.resize(y.w + 1)] {
            let (vx, vy) = (Value::BitVec(x.val()), Value::BitVec(y.val()));
            expect_eq(vx == vy, *x == y, || format!("Value == of {x:?} and {y:?}"))?;
            match BitVecValue::try_from(vy.clone()) {
                Ok(v) => expect(&v, &y, || "unwrapped bit vector".into())?,
                Err(()) => return Err("wrapped bit vector does not unwrap".into()),
            }
            if ArrayValue::try_from(vy).is_ok() {
                return Err("wrapped bit vector unwraps to an array".into());
            }
        }
    }
    obs.label_if(equal > 0, "equal pair");
    obs.label_if(diff > 0, "unequal pair");
    obs.nontrivial_if((equal > 0 || diff > 0) && !c.common.is_empty());
    Ok(())
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        suites: vec![
            Box::new(Suite {
                name: "c18_equality",
                rule: "three arrays over common palettes: mostly common stores (detoured, reordered, filled), at most two own stores, same or \
                       different default, representation and (sometimes) type; all nine pairs compared; non-trivial: comparable pair and a common store",
                quick: 600_000,
                thorough: 9_600_000,
                strat: eq_case,
                check: c18_check,
        }),
            Box::new(Suite {
                name: "c18_large",
                rule: "pairs of equal arrays of 2^8..2^18 elements with up to 6000 stores, single elements changed and changed back; non-trivial: more than 8 entries",
                quick: 2_000,
                thorough: 30_000,
                strat: || big_arr(),
                check: c18_big,
            }),
            Box::new(Suite {
                name: "c18_huge",
                rule: "slices of 2^17..2^25 bools, bytes or words, around powers of two, equal apart from up to 12 elements, compared dense, sparse and after single changes",
                quick: 10,
                thorough: 200,
                strat: huge_slice,
                check: c18_huge,
            }),
            Box::new(Suite {
                name: "c18_wide_data",
                rule: "the same with elements of up to 70000 bits; non-trivial as above",
                quick: 4_000,
                thorough: 60_000,
                strat: || wide_data_arr(),
                check: c18_big,
            }),
        ],
    }
}

// ------------------------------------------------------------------ C19

fn c19_check(c: &ArrCase, obs: &mut Obs) -> Res {
    let pool = run_history(c, obs)?;
    for (k, (a, m)) in pool.iter().enumerate() {
        let ctx = || format!("copy {k} after {c:?}");
        let s = a.sparse();
        check_entries(&s, m, &ctx)?;
        // the entries and the default determine the array
        let r = rebuild(&s);
        expect_eq(r == a.value(), true, || format!("{}: rebuilt array is equal", ctx()))?;
        Arr::A(r).check_all(m, &c.idx, &ctx)?;
    }
    Ok(())
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        suites: vec![
            Box::new(Suite {
                name: "c19_entries",
                rule: "array histories as in c16_histories; the entries and default of every copy in sparse form are compared with the \
                       model and used to rebuild it; non-trivial: at least one store and a non-default data value",
                quick: 600_000,
                thorough: 9_600_000,
                strat: || arr_case(1, false),
                check: c19_check,
        }),
            Box::new(Suite {
                name: "c19_large",
                rule: "arrays of 2^8..2^18 elements with up to 6000 stores; non-trivial: more than 8 entries",
                quick: 2_000,
                thorough: 30_000,
                strat: || big_arr(),
                check: c19_big,
            }),
            Box::new(Suite {
                name: "c19_huge",
                rule: "slices of 2^17..2^25 bools, bytes or words, around powers of two, equal apart from up to 12 elements, made sparse and enumerated",
                quick: 8,
                thorough: 200,
                strat: huge_slice,
                check: c19_huge,
            }),
            Box::new(Suite {
                name: "c19_many_entries",
                rule: "arrays of 2^16..2^64 elements with up to 260000 stores; non-trivial as above",
                quick: 32,
                thorough: 500,
                strat: || huge_arr(),
                check: c19_big,
            }),
        ],
    }
}
