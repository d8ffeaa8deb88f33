//! Numbers and short texts that appear in the source of the code under test.  They only steer
//! the workload (lengths, counts, boundary values); verdicts never depend on
//! them.
use std::sync::OnceLock;

static NUMS: OnceLock<Vec<u64>> = OnceLock::new();
static STRS: OnceLock<Vec<String>> = OnceLock::new();

/// What the sources held when the harness was written; what has been added
/// since is visited more often.
const BASE: &str = include_str!("../dict_base.txt");

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

/// The lines of the sources, without comments and tests.
fn lines() -> Vec<String> {
    let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
    let mut files = vec![];
    walk(&std::path::Path::new(&root).join("src"), &mut files);
    let mut v = vec![];
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        for line in s.lines() {
            if line.trim() == "#[cfg(test)]" {
                break;
            }
            if !line.trim_start().starts_with("//") {
                v.push(line.to_string());
            }
        }
    }
    v
}

/// Every number written in the sources, shifts and products too.
fn raw_nums() -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for line in lines() {
        let line = line.split("// ").next().unwrap_or("");
        let b: Vec<char> = line.chars().collect();
        let mut i = 0;
        let mut last: Option<(u64, usize)> = None;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == '_')) {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                    j += 1;
                }
                let t: String = b[i..j].iter().filter(|c| **c != '_').collect();
                let mut t = t.as_str();
                for suffix in ["usize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                    t = t.strip_suffix(suffix).unwrap_or(t);
                }
                let n = match (t.get(..2), t.get(2..)) {
                    (Some("0x"), Some(h)) => u64::from_str_radix(h, 16).ok(),
                    (Some("0b"), Some(h)) => u64::from_str_radix(h, 2).ok(),
                    _ => t.parse().ok(),
                };
                if let Some(n) = n {
                    v.push(n);
                    if let Some((a, end)) = last {
                        let op: String = b[end..i].iter().collect();
                        match op.trim() {
                            "<<" if n < 63 => v.push(a << n),
                            "*" => v.extend(a.checked_mul(n)),
                            _ => {}
                        }
                    }
                    last = Some((n, j));
                }
                i = j;
            } else {
                i += 1;
            }
        }
        for (word, n) in [("as u8", 256u64), ("u8::", 256), ("as i8", 128), ("i8::", 128), ("as u16", 65536), ("u16::", 65536), ("as i16", 32768), ("i16::", 32768), ("as u32", 1 << 32), ("u32::", 1 << 32), ("as i32", 1 << 31), ("i32::", 1 << 31), ("f32", 1 << 24), ("i64::", 1 << 63), ("as i64", 1 << 63), ("f64", 1 << 53)] {
            if line.contains(word) {
                v.push(n);
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Repeat what is new until it makes up a good part of the whole.
fn favour<T: Clone + Ord>(all: Vec<T>, new: &[T]) -> Vec<T> {
    let mut all = all;
    if !new.is_empty() {
        let n = all.len() / 2 / new.len().max(1);
        for _ in 0..n.max(1) {
            all.extend_from_slice(new);
        }
        all.sort();
    }
    all
}

fn around(v: &[u64]) -> Vec<u64> {
    let mut all: Vec<u64> = vec![];
    for n in v {
        for d in [n.wrapping_sub(1), *n, n.wrapping_add(1)] {
            if *n != 0 || d < 5 {
                all.push(d);
            }
        }
    }
    all.sort_unstable();
    all.dedup();
    all
}

pub fn nums() -> &'static [u64] {
    NUMS.get_or_init(|| {
        let base: Vec<u64> = BASE.lines().filter_map(|l| l.strip_prefix("n ")?.parse().ok()).collect();
        let raw = raw_nums();
        let new: Vec<u64> = raw.iter().copied().filter(|n| !base.contains(n)).collect();
        let mut v: Vec<u64> = vec![2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257];
        v.extend(raw);
        favour(around(&v), &around(&new))
    })
}

/// How often each capitalised name occurs in the sources.
fn raw_words() -> std::collections::BTreeMap<String, usize> {
    let mut m = std::collections::BTreeMap::new();
    for line in lines() {
        for w in line.split(|c: char| !c.is_ascii_alphanumeric()) {
            if w.starts_with(|c: char| c.is_ascii_uppercase()) {
                *m.entry(w.to_string()).or_insert(0) += 1;
            }
        }
    }
    m
}

/// Is this name used more often in the sources than when the harness was
/// written?
pub fn hot(word: &str) -> bool {
    static HOT: OnceLock<Vec<String>> = OnceLock::new();
    HOT.get_or_init(|| {
        let base: std::collections::BTreeMap<&str, usize> = BASE.lines().filter_map(|l| l.strip_prefix("w ")?.split_once(' ').map(|(n, w)| (w, n.parse().unwrap()))).collect();
        raw_words().into_iter().filter(|(w, n)| n > base.get(w.as_str()).unwrap_or(&0)).map(|(w, _)| w).collect()
    })
    .iter()
    .any(|w| w == word)
}
pub fn any_hot(words: &[&str]) -> bool {
    words.iter().any(|w| hot(w))
}

/// What `dict_base.txt` holds.
pub fn dump() -> String {
    let mut s = String::new();
    for n in raw_nums() {
        s += &format!("n {}\n", n);
    }
    for t in raw_strs() {
        s += &format!("s {}\n", t.escape_default());
    }
    for (w, n) in raw_words() {
        s += &format!("w {} {}\n", n, w);
    }
    s
}

/// Dictionary entries no bigger than `max`.
pub fn small(max: u64) -> Vec<u64> {
    nums().iter().copied().filter(|n| *n <= max).collect()
}

/// A number of pieces: usually within `lo..=hi`, with the given chance one
/// from the dictionary, up to `max`.
pub fn count(r: &mut crate::rng::Rng, lo: usize, hi: usize, pct: u32, max: u64) -> usize {
    if r.pct(pct) {
        (*r.pick(&small(max)) as usize).max(lo)
    } else {
        r.range(lo, hi)
    }
}

fn unescape(p: &str) -> Option<String> {
    let mut o = String::new();
    let mut c = p.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            o.push(x);
            continue;
        }
        match c.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            'u' => {
                let h: String = c.by_ref().skip(1).take_while(|x| *x != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            'x' => {
                let h: String = c.by_ref().take(2).collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            y => o.push(y),
        }
    }
    Some(o)
}

/// Short texts and characters quoted in the sources.
fn raw_strs() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for line in lines() {
        let b: Vec<char> = line.chars().collect();
        for q in ['"', '\''] {
            let mut i = 0;
            while i < b.len() {
                if b[i] != q {
                    i += 1;
                    continue;
                }
                let mut j = i + 1;
                while j < b.len() && b[j] != q {
                    j += if b[j] == '\\' { 2 } else { 1 };
                }
                if j < b.len() && j > i + 1 && j - i <= 15 {
                    let p: String = b[i + 1..j].iter().collect();
                    if !p.contains("{}") && !p.contains(", ") {
                        v.extend(unescape(&p));
                    }
                }
                i = j + 1;
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn strs() -> &'static [String] {
    STRS.get_or_init(|| {
        let base: Vec<&str> = BASE.lines().filter_map(|l| l.strip_prefix("s ")).collect();
        let raw = raw_strs();
        let new: Vec<String> = raw.iter().filter(|s| !base.contains(&s.escape_default().to_string().as_str())).cloned().collect();
        let mut v = vec!["x".to_string()];
        v.extend(raw);
        favour(v, &new)
    })
}
/// Those that can be names.
pub fn idents() -> &'static [String] {
    static IDS: OnceLock<Vec<String>> = OnceLock::new();
    IDS.get_or_init(|| {
        strs()
            .iter()
            .filter(|s| s.starts_with(|c: char| c.is_ascii_alphabetic() || "@_$".contains(c)) && s.ends_with(|c: char| c.is_ascii_alphanumeric() || "@_$".contains(c)) && s.chars().all(|c| c.is_ascii_alphanumeric() || "@_$-.".contains(c)))
            .cloned()
            .collect()
    })
}
