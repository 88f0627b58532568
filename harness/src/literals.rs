//! A dictionary for the generators: the integer literals that the code under
//! test did not have, or had fewer times, when this harness was written
//! (`literals.txt`: each with its count).  There are none on the tree the list
//! was made from; a change that compares against a constant brings it along, and the
//! generators then use it as a word, a digit, a byte or a machine integer now
//! and again.  A case depends on the choices and this list only, so a replay
//! file records the list.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Fresh {
    pub words: Vec<u64>,
    pub arrays: Vec<Vec<u64>>,
}

static FRESH: OnceLock<Fresh> = OnceLock::new();

/// Literals to use; empty until `load` or `set`.
pub fn fresh() -> &'static [u64] {
    FRESH.get().map(|v| &v.words[..]).unwrap_or(&[])
}

/// Lists of literals to use.
pub fn arrays() -> &'static [Vec<u64>] {
    FRESH.get().map(|v| &v.arrays[..]).unwrap_or(&[])
}

/// From the text in a replay file: numbers, and lists with commas.
pub fn set(text: &str) {
    let mut f = Fresh::default();
    for w in text.split_whitespace() {
        let l: Vec<u64> = w.split(',').filter_map(|x| x.parse().ok()).collect();
        if w.contains(',') { f.arrays.push(l) } else { f.words.extend(l) }
    }
    let _ = FRESH.set(f);
}

/// As `set` takes it.
pub fn text() -> String {
    let list = |l: &[u64], by: &str| l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(by);
    let mut out = vec![list(fresh(), " ")];
    out.extend(arrays().iter().map(|a| list(a, ",")));
    out.retain(|x| !x.is_empty());
    out.join(" ")
}

pub fn load(root: &Path) {
    let mut base = BTreeMap::new();
    let mut known = BTreeSet::new();
    match fs::read_to_string(root.join("literals.txt")) {
        Ok(t) => {
            for l in t.lines() {
                if let Some(h) = l.strip_prefix("list ") {
                    known.insert(h.to_string());
                    continue;
                }
                let mut w = l.split(' ').filter_map(|x| x.parse::<u64>().ok());
                if let (Some(v), Some(k)) = (w.next(), w.next()) {
                    base.insert(v, k);
                }
            }
        }
        Err(_) => return set(""),
    }
    // Small numbers come and go with any edit.  A literal too many does no
    // harm; many too many would.
    let fresh = |v: u64, k: u64| match base.get(&v) {
        Some(b) => v >= 256 && k > *b,
        None => true,
    };
    let (words, arrays) = of_target(root);
    let _ = FRESH.set(Fresh {
        words: words.into_iter().filter(|&(v, k)| fresh(v, k)).map(|(v, _)| v).take(64).collect(),
        arrays: arrays.into_iter().filter(|a| !known.contains(&hash(a))).take(64).collect(),
    });
}

fn hash(a: &[u64]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in a {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    format!("{:016x}", h)
}

/// What `literals.txt` holds.
pub fn listing(root: &Path) -> String {
    let (words, arrays) = of_target(root);
    let mut out = String::new();
    for (v, k) in words {
        out += &format!("{} {}\n", v, k);
    }
    for a in arrays {
        out += &format!("list {}\n", hash(&a));
    }
    out
}

/// The literals of the crate that this harness depends on with their counts,
/// and its lists of literals.
fn of_target(root: &Path) -> (BTreeMap<u64, u64>, BTreeSet<Vec<u64>>) {
    let mut out = Default::default();
    let toml = fs::read_to_string(root.join("harness/Cargo.toml")).unwrap_or_default();
    if let Some(at) = toml.find("path = \"/") {
        let rest = &toml[at + 8..];
        if let Some(end) = rest.find('"') {
            walk(&Path::new(&rest[..end]).join("src"), &mut out);
        }
    }
    out
}

fn walk(dir: &Path, out: &mut (BTreeMap<u64, u64>, BTreeSet<Vec<u64>>)) {
    let list: Vec<PathBuf> = match fs::read_dir(dir) {
        Ok(l) => l.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    for p in list {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(t) = fs::read_to_string(&p) {
                scan(t.split("#[cfg(test)]").next().unwrap_or(""), &mut out.0, &mut out.1);
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Tok {
    Num(u64),
    Op(&'static str),
    Word(String),
}

const OPS: [&str; 29] = [
    "<<=", ">>=", "..=", "<<", ">>", "&&", "||", "==", "!=", "<=", ">=", "->", "=>", "::", "(", ")", "[", "]", ",", ";", "+", "-", "*", "/",
    "%", "&", "|", "^", "=",
];

fn tokens(text: &str) -> Vec<Tok> {
    let mut out = Vec::new();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    for line in text.lines() {
        let b = line.split("//").next().unwrap_or("").as_bytes();
        let mut i = 0;
        while i < b.len() {
            let from = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            if i > from {
                let t = String::from_utf8_lossy(&b[from..i]).into_owned();
                match if b[from].is_ascii_digit() { number(&t) } else { None } {
                    Some(v) => out.push(Tok::Num(v)),
                    None => out.push(Tok::Word(t)),
                }
                continue;
            }
            match OPS.iter().find(|o| b[i..].starts_with(o.as_bytes())) {
                Some(o) => {
                    out.push(Tok::Op(o));
                    i += o.len();
                }
                None => {
                    if !b[i].is_ascii_whitespace() {
                        out.push(Tok::Op("?"));
                    }
                    i += 1;
                }
            }
        }
    }
    out
}

/// Evaluates an expression of literals (and constants that are named by
/// one), handing the value of every operation to `node`.
struct Eval<'a> {
    t: &'a [Tok],
    at: usize,
    named: &'a BTreeMap<String, u64>,
    nodes: Vec<u64>,
}

impl<'a> Eval<'a> {
    fn op(&self) -> &'static str {
        match self.t.get(self.at) {
            Some(Tok::Op(o)) => o,
            _ => "",
        }
    }

    fn unary(&mut self, depth: usize) -> Option<u64> {
        if depth > 20 {
            return None;
        }
        let v = match self.t.get(self.at)? {
            Tok::Num(v) => {
                self.at += 1;
                *v
            }
            Tok::Word(w) => {
                let v = *self.named.get(w)?;
                self.at += 1;
                v
            }
            Tok::Op("-") => {
                self.at += 1;
                let v = self.unary(depth + 1)?.wrapping_neg();
                self.nodes.push(v);
                v
            }
            Tok::Op("(") => {
                self.at += 1;
                let v = self.binary(0, depth + 1)?;
                if self.op() != ")" {
                    return None;
                }
                self.at += 1;
                v
            }
            _ => return None,
        };
        // "as i64" and the like
        while let (Some(Tok::Word(a)), Some(Tok::Word(_))) = (self.t.get(self.at), self.t.get(self.at + 1)) {
            if a != "as" {
                break;
            }
            self.at += 2;
        }
        Some(v)
    }

    fn binary(&mut self, min: u32, depth: usize) -> Option<u64> {
        let mut l = self.unary(depth)?;
        loop {
            let o = self.op();
            let prec = match o {
                "*" | "/" | "%" => 5,
                "+" | "-" => 4,
                "<<" | ">>" => 3,
                "&" => 2,
                "^" => 1,
                "|" => 0,
                _ => return Some(l),
            };
            if prec < min {
                return Some(l);
            }
            let back = self.at;
            self.at += 1;
            let r = match self.binary(prec + 1, depth + 1) {
                Some(r) => r,
                None => {
                    self.at = back;
                    return Some(l);
                }
            };
            l = match o {
                "*" => l.wrapping_mul(r),
                "/" => l.checked_div(r).unwrap_or(0),
                "%" => l.checked_rem(r).unwrap_or(0),
                "+" => l.wrapping_add(r),
                "-" => l.wrapping_sub(r),
                "<<" => l.checked_shl(r as u32).unwrap_or(0),
                ">>" => l.checked_shr(r as u32).unwrap_or(0),
                "&" => l & r,
                "^" => l ^ r,
                _ => l | r,
            };
            self.nodes.push(l);
        }
    }
}

fn scan(text: &str, out: &mut BTreeMap<u64, u64>, arrays: &mut BTreeSet<Vec<u64>>) {
    let t = tokens(text);
    // Constants, by name.
    let mut named = BTreeMap::new();
    for at in 0..t.len() {
        if let (Tok::Word(k), Some(Tok::Word(name))) = (&t[at], t.get(at + 1)) {
            if k == "const" || k == "static" {
                let eq = (at..t.len().min(at + 12)).find(|&j| matches!(t[j], Tok::Op("=")));
                if let Some(eq) = eq {
                    let mut e = Eval { t: &t, at: eq + 1, named: &named, nodes: Vec::new() };
                    if let Some(v) = e.binary(0, 0) {
                        if e.op() == ";" {
                            named.insert(name.clone(), v);
                        }
                    }
                }
            }
        }
    }
    let mut at = 0;
    while at < t.len() {
        // A list of such expressions.
        if let Tok::Op("[") = t[at] {
            let mut e = Eval { t: &t, at: at + 1, named: &named, nodes: Vec::new() };
            let mut list = Vec::new();
            while let Some(v) = e.binary(0, 0) {
                list.push(v);
                if e.op() != "," {
                    break;
                }
                e.at += 1;
            }
            if e.op() == "]" && list.len() >= 3 {
                arrays.insert(list);
            }
        }
        if let Tok::Num(v) = t[at] {
            *out.entry(v).or_insert(0) += 1;
        }
        let starts = matches!(t[at], Tok::Num(_) | Tok::Word(_) | Tok::Op("(") | Tok::Op("-"));
        if starts && !(at > 0 && matches!(t[at - 1], Tok::Num(_) | Tok::Word(_)) && !matches!(t[at], Tok::Num(_) | Tok::Word(_))) {
            let mut e = Eval { t: &t, at, named: &named, nodes: Vec::new() };
            let _ = e.binary(0, 0);
            for v in e.nodes {
                *out.entry(v).or_insert(0) += 1;
            }
        }
        at += 1;
    }
}

fn number(t: &str) -> Option<u64> {
    let t = t.replace('_', "");
    let (radix, digits) = match t.get(..2) {
        Some("0x") => (16, &t[2..]),
        Some("0b") => (2, &t[2..]),
        Some("0o") => (8, &t[2..]),
        _ => (10, &t[..]),
    };
    // up to a type suffix
    let end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    u128::from_str_radix(&digits[..end], radix).ok().map(|v| v as u64)
}
