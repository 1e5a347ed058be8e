//! A dictionary for the generators: the numbers, strings and characters written in the code under
//! test. Workloads lean towards sizes and texts the code itself makes a difference for.

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Default)]
struct Found {
    numbers: BTreeSet<u64>,
    strings: BTreeSet<String>,
    chars: BTreeSet<char>,
}

/// One escape after the backslash.
fn escape(c: &[char], i: &mut usize) -> Option<char> {
    let e = *c.get(*i)?;
    *i += 1;
    Some(match e {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' => {
            let h: String = c.get(*i..*i + 2)?.iter().collect();
            *i += 2;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        'u' => {
            let end = *i + c[*i..].iter().position(|x| *x == '}')?;
            let h: String = c[*i + 1..end].iter().filter(|x| **x != '_').collect();
            *i = end + 1;
            char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
        }
        '\n' => {
            while c.get(*i).is_some_and(|x| x.is_whitespace()) {
                *i += 1;
            }
            return None;
        }
        other => other,
    })
}

fn scan(text: &str, f: &mut Found) {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                let mut depth = 1;
                i += 2;
                while i < c.len() && depth > 0 {
                    if c[i] == '*' && at(i + 1) == '/' {
                        depth -= 1;
                        i += 1;
                    } else if c[i] == '/' && at(i + 1) == '*' {
                        depth += 1;
                        i += 1;
                    }
                    i += 1;
                }
            }
            'r' if (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#'))
                && !(i > 0 && (c[i - 1].is_alphanumeric() && c[i - 1] != 'b' || c[i - 1] == '_')) =>
            {
                let mut j = i + 1;
                while at(j) == '#' {
                    j += 1;
                }
                let hashes = j - i - 1;
                j += 1;
                let start = j;
                while j < c.len() && !(c[j] == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
                    j += 1;
                }
                if j <= c.len() {
                    f.strings.insert(c[start..j.min(c.len())].iter().collect());
                }
                i = j + 1 + hashes;
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        s.extend(escape(&c, &mut i));
                    } else {
                        s.push(c[i]);
                        i += 1;
                    }
                }
                i += 1;
                f.strings.insert(s);
            }
            '\'' => {
                if at(i + 1) == '\\' {
                    i += 2;
                    f.chars.extend(escape(&c, &mut i));
                    i += 1;
                } else if at(i + 2) == '\'' {
                    f.chars.insert(c[i + 1]);
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut j = i;
                while at(j).is_ascii_alphanumeric() || at(j) == '_' {
                    j += 1;
                }
                let t: String = c[i..j].iter().filter(|x| **x != '_').collect();
                let n = if let Some(h) = t.strip_prefix("0x") {
                    u64::from_str_radix(h.trim_end_matches("usize"), 16).ok()
                } else {
                    let d: String = t.chars().take_while(|x| x.is_ascii_digit()).collect();
                    d.parse().ok()
                };
                f.numbers.extend(n);
                i = j;
            }
            a if a.is_alphanumeric() || a == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

fn main() {
    let root = std::env::var("SIM_REPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rerun-if-env-changed=SIM_REPO");
    println!("cargo:rerun-if-changed=build.rs");
    let mut found = Found::default();
    for c in ["rdftk_iri", "rdftk_core", "rdftk_io"] {
        let dir = Path::new(&root).join(c).join("src");
        println!("cargo:rerun-if-changed={}", dir.display());
        let mut files = vec![];
        sources(&dir, &mut files);
        for p in files {
            if let Ok(t) = std::fs::read_to_string(&p) {
                scan(&t, &mut found);
            }
        }
    }
    found.numbers.extend([7, 8, 10, 15, 16, 20, 31, 32, 50, 63, 64, 100, 127, 128, 255, 256, 500, 512, 1000, 1023, 1024]);
    let mut out = String::new();
    let numbers: Vec<u64> = found.numbers.into_iter().filter(|n| (5..=5000).contains(n)).collect();
    writeln!(out, "pub static NUMBERS: &[u64] = &{numbers:?};").unwrap();
    let strings: Vec<String> = found
        .strings
        .into_iter()
        .filter(|s| !s.is_empty() && s.chars().count() <= 40 && !s.contains(['{', '}']) && s.matches(' ').count() < 3)
        .collect();
    writeln!(out, "pub static STRINGS: &[&str] = &{strings:?};").unwrap();
    let chars: Vec<char> = found.chars.into_iter().collect();
    writeln!(out, "pub static CHARS: &[char] = &{chars:?};").unwrap();
    let path = Path::new(&std::env::var("OUT_DIR").unwrap()).join("dict.rs");
    std::fs::write(path, out).unwrap();
}
