//! Interesting constants taken from baa's own sources (integer and character/string literals outside the
//! test modules). They only bias generation: every generated input is legal whatever they are.

use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    /// Literals which the tree this harness was written for does not have are repeated until they are half of the list.
    pub ints: Vec<u64>,
    pub strings: Vec<String>,
    /// whether there are such literals
    pub fresh: bool,
}

/// the literals of the sources this harness was written for (`baa-pbt literals`), ints and strings
const BASE: &str = include_str!("dict_base.txt");

/// literals of the current sources
pub fn literals() -> (Vec<u64>, Vec<String>) {
    let root = std::env::var("BAA_REPO").unwrap_or_else(|_| "/repo".into());
    let mut files = vec![];
    collect(&Path::new(&root).join("src"), &mut files);
    files.sort();
    let mut ints = std::collections::BTreeSet::new();
    let mut strings = std::collections::BTreeSet::new();
    for f in files {
        if let Ok(text) = std::fs::read_to_string(&f) {
            scan(&text, &mut ints, &mut strings);
        }
    }
    (ints.into_iter().collect(), strings.into_iter().collect())
}

/// an integer and what is likely to matter if it is a bound, a width or a shift amount
fn neighbours(ints: impl IntoIterator<Item = u64>) -> std::collections::BTreeSet<u64> {
    let mut all = std::collections::BTreeSet::new();
    for i in ints {
        all.insert(i);
        all.insert(i.wrapping_add(1));
        all.insert(i.wrapping_sub(1));
        if i < 64 {
            all.insert(1 << i);
            all.insert((1u64 << i) - 1);
        }
    }
    all
}

fn emphasise<T: Clone>(mut all: Vec<T>, fresh: &[T]) -> Vec<T> {
    if !fresh.is_empty() {
        for i in 0..all.len() {
            all.push(fresh[i % fresh.len()].clone());
        }
    }
    all
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let (ints, strings) = literals();
        let known: std::collections::HashSet<&str> = BASE.lines().collect();
        let new_ints: Vec<u64> = ints.iter().copied().filter(|i| !known.contains(format!("i {i}").as_str())).collect();
        let new_strings: Vec<String> =
            strings.iter().filter(|s| !known.contains(format!("s {}", s.escape_default()).as_str())).take(100).cloned().collect();
        let fresh = !new_ints.is_empty() || !new_strings.is_empty();
        let new_ints: Vec<u64> = new_ints.iter().copied().chain(neighbours(new_ints.iter().copied())).take(200).collect();
        let mut all = neighbours(ints);
        all.extend([10, 100, 1000, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32]);
        Dict {
            ints: emphasise(all.into_iter().take(400).collect(), &new_ints),
            strings: emphasise(strings.into_iter().take(200).collect(), &new_strings),
            fresh,
        }
    })
}

fn collect(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                collect(&p, out);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
}

fn scan(
    text: &str,
    ints: &mut std::collections::BTreeSet<u64>,
    strings: &mut std::collections::BTreeSet<String>,
) {
    // leave out the test module at the end of the file and comments
    let text = match text.find("#[cfg(test)]\nmod tests") {
        Some(p) => &text[..p],
        None => match text.find("#[cfg(test)]\npub(crate) mod tests") {
            Some(p) => &text[..p],
            None => text,
        },
    };
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or("");
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if b[i].is_ascii_digit() && !prev_ident {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                if let Some(v) = parse_int(&line[st..i]) {
                    ints.insert(v);
                }
            } else if b[i] == b'"' || b[i] == b'\'' {
                let q = b[i];
                let st = i + 1;
                let mut j = st;
                while j < b.len() && b[j] != q {
                    j += if b[j] == b'\\' { 2 } else { 1 };
                }
                if j < b.len() && j > st && j - st <= 8 && !line[st..j].contains('{') {
                    strings.insert(line[st..j].to_string());
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
    }
}

fn parse_int(s: &str) -> Option<u64> {
    let t: String = s.chars().filter(|c| *c != '_').collect();
    let t = ["usize", "u128", "u64", "u32", "u16", "u8", "i128", "i64", "i32", "i16", "i8"]
        .iter()
        .find_map(|suf| t.strip_suffix(suf).map(|x| x.to_string()))
        .unwrap_or(t);
    if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(h, 2).ok()
    } else {
        t.parse().ok()
    }
}
