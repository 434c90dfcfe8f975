//! Dictionary of the workloads: the numbers and texts written in the sources of the tree under
//! test, as fuzzers do. They only steer the inputs (values at and around the constants at which
//! the code may change its mind, first those that the tree this harness was written for does not
//! have); the verdicts never look at them.
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::f64::consts::{FRAC_PI_2, PI};
use std::sync::OnceLock;

pub struct Dict {
    /// sorted candidate values
    pub new: Vec<f64>,
    pub all: Vec<f64>,
    /// new texts, new whole numbers
    pub texts: Vec<String>,
    pub ints: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
const BASE: &str = include_str!("../baseline_literals.txt");

pub fn dict() -> Option<&'static Dict> {
    DICT.get()
}

type Bag = BTreeMap<(String, String), usize>;

/// numeric and string literals of a source text, its unit tests left out
fn lex(file: &str, text: &str, bag: &mut Bag) {
    let t = text.split("#[cfg(test)]").next().unwrap_or("");
    let b = t.as_bytes();
    let mut i = 0;
    let mut prev = b' ';
    let mut put = |s: String| *bag.entry((file.to_string(), s)).or_insert(0) += 1;
    while i < b.len() {
        let ch = b[i];
        if ch == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if ch == b'/' && b.get(i + 1) == Some(&b'*') {
            while i < b.len() && !(b[i] == b'*' && b.get(i + 1) == Some(&b'/')) {
                i += 1;
            }
            i += 2;
            continue;
        }
        if ch == b'"' {
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' {
                    i += 1;
                }
                if i < b.len() {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            prev = b'"';
            let s = String::from_utf8_lossy(&s).replace(['\n', '\t'], " ");
            if !s.is_empty() && s.len() < 80 {
                put(format!("s{s}"));
            }
            continue;
        }
        if ch.is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'.') {
            let st = i;
            let hex = ch == b'0' && matches!(b.get(i + 1), Some(b'x' | b'b' | b'o'));
            while i < b.len() {
                let c = b[i];
                let exp = !hex && (c == b'+' || c == b'-') && matches!(b[i - 1], b'e' | b'E') && b[st..i - 1].iter().all(|c| c.is_ascii_digit() || matches!(c, b'.' | b'_'));
                let dot = !hex && c == b'.' && b.get(i + 1) != Some(&b'.') && !b.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic() || *c == b'_') && !b[st..i].contains(&b'.');
                if c.is_ascii_alphanumeric() || c == b'_' || exp || dot {
                    i += 1;
                } else {
                    break;
                }
            }
            prev = b'0';
            let s: String = t[st..i].replace('_', "");
            let v = if hex {
                u64::from_str_radix(s[2..].trim_end_matches(|c: char| matches!(c, 'u' | 's' | 'z' | 'i')), match &s[1..2] {
                    "x" => 16,
                    "o" => 8,
                    _ => 2,
                })
                .ok()
                .map(|v| v as f64)
            } else {
                let mut s = s.as_str();
                for suf in ["f64", "f32", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"] {
                    s = s.strip_suffix(suf).unwrap_or(s);
                }
                s.parse::<f64>().ok()
            };
            if let Some(v) = v.filter(|v| v.is_finite() && *v != 0.) {
                put(format!("n{v:?}"));
            }
            continue;
        }
        prev = ch;
        i += 1;
    }
}

fn walk(root: &std::path::Path, dir: &std::path::Path, bag: &mut Bag) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(root, &p, bag);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                lex(&p.strip_prefix(root).unwrap_or(&p).to_string_lossy(), &t, bag);
            }
        }
    }
}

fn bag() -> Bag {
    let mut b = Bag::new();
    if !cfg!(miri) {
        let root = std::env::var("GK_SRC").unwrap_or_else(|_| "/repo/geokit/src".into());
        let root = std::path::PathBuf::from(root);
        walk(&root, &root, &mut b);
    }
    b
}

/// the literals of the tree, one per line: the baseline
pub fn print() {
    for ((f, l), n) in bag() {
        println!("{f}\t{n}\t{l}");
    }
}

fn expand(d: f64, wide: bool, out: &mut Vec<f64>) {
    const R: f64 = PI / 180.;
    let mut v = vec![d, d * R];
    if wide {
        v.extend([d / R, 1. / d, PI / d, PI * d, FRAC_PI_2 - d, PI - d, FRAC_PI_2 - d * R, PI - d * R, d * 0.3048, d / 0.3048]);
    }
    for x in v {
        if x.is_finite() && x != 0. {
            out.push(x);
            out.push(-x);
        }
    }
}

pub fn load() {
    let mut base = Bag::new();
    for l in BASE.lines() {
        let mut p = l.splitn(3, '\t');
        if let (Some(f), Some(n), Some(s)) = (p.next(), p.next(), p.next()) {
            base.insert((f.into(), s.into()), n.parse().unwrap_or(0));
        }
    }
    let mut d = Dict { new: vec![], all: vec![], texts: vec![], ints: vec![] };
    let mut fresh = |l: &str, d: &mut Dict| {
        if let Some(s) = l.strip_prefix('s') {
            d.texts.push(s.to_string());
        } else if let Ok(v) = l[1..].parse::<f64>() {
            expand(v, true, &mut d.new);
            if v.fract() == 0. && v > 0. && v < 1e7 {
                d.ints.push(v as u64);
            }
        }
    };
    for ((f, l), n) in bag() {
        if let Some(v) = l.strip_prefix('n').and_then(|s| s.parse::<f64>().ok()) {
            expand(v, false, &mut d.all);
        }
        if n > base.get(&(f, l.clone())).copied().unwrap_or(0) {
            fresh(&l, &mut d);
        }
    }
    // further entries, to try the workloads out
    if let Ok(x) = std::env::var("GK_DICT") {
        for w in x.split(',') {
            fresh(&if w.parse::<f64>().is_ok() { format!("n{w}") } else { format!("s{w}") }, &mut d);
        }
    }
    for v in [&mut d.new, &mut d.all] {
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup();
    }
    let _ = DICT.set(d);
}

/// the entries of a sorted table that lie in [lo, hi]
pub fn within(v: &[f64], lo: f64, hi: f64) -> &[f64] {
    let i = v.partition_point(|x| *x < lo);
    let j = v.partition_point(|x| *x <= hi);
    &v[i..j.max(i)]
}

/// A name for a user's object, chosen by its parameters: an ordinary one, one of the library's
/// names, or one found in the sources.
pub fn name(key: f64, default: &'static str) -> &'static str {
    const KNOWN: [&str; 12] = ["WGS 84", "WGS84", "GRS 1980(IUGG, 1980)", "Greenwich", "Paris", "Clarke 1866", "Bessel 1841", "International 1924 (Hayford 1909)", "Normal Sphere (r=6370997)", "", "custom", "NTF"];
    let h = mix(0x6e61_6d65, key.to_bits());
    let k = (h >> 8) as usize;
    match h % 8 {
        0 => KNOWN[k % KNOWN.len()],
        1 | 2 => match dict().map(|d| &d.texts) {
            Some(t) if !t.is_empty() => t[k % t.len()].as_str(),
            _ => default,
        },
        _ => default,
    }
}

/// A size: now and then a number found in the sources, or next to it.
pub fn size(r: &mut Rng, most: u64) -> Option<usize> {
    let t = &dict()?.ints;
    if t.is_empty() || !r.chance(1, 12) {
        return None;
    }
    let n = (*r.pick(t) + r.below(4)).saturating_sub(1);
    (n >= 1 && n <= most).then_some(n as usize)
}
