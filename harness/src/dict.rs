//! Dictionary of the literals in the source of the code under test, as fuzzers use one to get past
//! comparisons with magic values. It only steers generators; a case records the values themselves.
use crate::engine::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    /// literals that are not in `dict.txt`, the ones of the pinned tree
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(load)
}

impl Dict {
    /// A number to try, more often one that is new in the tree.
    pub fn int(&self, r: &mut Rng) -> Option<u64> {
        let v = if !self.new_ints.is_empty() && r.below(4) > 0 { &self.new_ints } else { &self.ints };
        if v.is_empty() {
            return None;
        }
        let x = v[r.below(v.len() as u64) as usize];
        Some(match r.below(4) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            _ => x,
        })
    }
    pub fn str(&self, r: &mut Rng) -> Option<&str> {
        let v = if !self.new_strs.is_empty() && r.below(4) > 0 { &self.new_strs } else { &self.strs };
        if v.is_empty() {
            return None;
        }
        Some(&v[r.below(v.len() as u64) as usize])
    }
}

fn root() -> String {
    let m = include_str!("../Cargo.toml");
    let at = m.find("mysql_cdc").map(|i| &m[i..]).unwrap_or("");
    let p = at.split('"').nth(1).unwrap_or("/repo");
    format!("{}/src", p)
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

/// The numbers and strings of a source text. Comments are skipped, and so are the tests at its end.
pub fn scan(text: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the number before, and an operator after it
    let mut last: Option<(u64, char)> = None;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        '0' => s.push('\0'),
                        o => s.push(o),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 64 {
                strs.insert(s);
            }
            last = None;
        } else if x == '\'' && at(i + 2) == '\'' && at(i + 1) != '\\' {
            ints.insert(at(i + 1) as u64);
            i += 3;
            last = None;
        } else if x.is_ascii_digit() {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    t.push(c[i].to_ascii_lowercase());
                }
                i += 1;
            }
            let (radix, d) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let end = d.find(|q: char| !q.is_digit(radix)).unwrap_or(d.len());
            if let Ok(n) = u64::from_str_radix(&d[..end], radix) {
                ints.insert(n);
                if let Some((a, op)) = last {
                    let v = match op {
                        '<' if n < 64 => Some(a << n),
                        '*' => a.checked_mul(n),
                        '+' => a.checked_add(n),
                        '-' => a.checked_sub(n),
                        _ => None,
                    };
                    ints.extend(v);
                }
                let mut k = i;
                while at(k) == ' ' {
                    k += 1;
                }
                last = match at(k) {
                    '<' if at(k + 1) == '<' => Some((n, '<')),
                    o @ ('*' | '+' | '-') => Some((n, o)),
                    _ => None,
                };
            }
        } else if x.is_alphanumeric() || x == '_' {
            // numbers within names
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            last = None;
        } else {
            if !matches!(x, ' ' | '<' | '*' | '+' | '-') {
                last = None;
            }
            i += 1;
        }
    }
}

pub fn all() -> (BTreeSet<u64>, BTreeSet<String>) {
    let mut v = vec![];
    files(std::path::Path::new(&root()), &mut v);
    let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
    for f in v {
        scan(&std::fs::read_to_string(f).unwrap_or_default(), &mut ints, &mut strs);
    }
    (ints, strs)
}

/// The text of `dict.txt`.
pub fn dump() -> String {
    let (i, s) = all();
    let mut o = String::new();
    for x in i {
        o += &format!("{}\n", x);
    }
    for x in s {
        o += &format!("{:?}\n", x);
    }
    o
}

fn load() -> Dict {
    if std::env::var("VH_NODICT").is_ok() {
        return Dict::default();
    }
    let known: BTreeSet<&str> = include_str!("../dict.txt").lines().collect();
    let (ints, strs) = all();
    let mut d = Dict::default();
    for x in ints {
        if !known.contains(x.to_string().as_str()) {
            d.new_ints.push(x);
        }
        d.ints.push(x);
    }
    for x in strs {
        if !known.contains(format!("{:?}", x).as_str()) {
            d.new_ints.push(x.len() as u64);
            d.new_strs.push(x.clone());
        }
        d.strs.push(x);
    }
    d
}
