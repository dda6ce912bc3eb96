//! Constants of the code under test, as raw material for the generators: a search by chance does not
//! come by a certain word or an exact limit, so strings and numbers that the current source mentions,
//! above all those that the first known source did not, turn up in texts, counts and environments.
//! They only steer what is tried; nothing is ever judged by them.

use crate::tape::Tape;
use std::collections::BTreeSet;
use std::sync::OnceLock;

const BASE: &str = include_str!("../dict.base");

#[derive(Default, Clone)]
pub struct Words {
    pub strs: Vec<String>,
    pub ints: Vec<u64>,
}

struct Dict {
    base: Words,
    new: Words,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn get() -> &'static Dict {
    DICT.get_or_init(|| Dict { base: parse(BASE), new: Words::default() })
}

/// Compares the sources in `dir` with the base.
pub fn init(dir: &str) {
    let base = parse(BASE);
    let now = harvest_dir(dir);
    let known: BTreeSet<&String> = base.strs.iter().collect();
    let known_ints: BTreeSet<u64> = base.ints.iter().copied().collect();
    let new = Words {
        strs: now.strs.into_iter().filter(|s| !known.contains(s)).take(400).collect(),
        ints: now.ints.into_iter().filter(|i| !known_ints.contains(i)).take(400).collect(),
    };
    let _ = DICT.set(Dict { base, new });
}

/// For replay: the words that were new when the file was written.
pub fn init_from(text: &str) {
    let _ = DICT.set(Dict { base: parse(BASE), new: parse(text) });
}

pub fn new_words() -> String {
    print(&get().new)
}

pub fn print(w: &Words) -> String {
    let mut o = String::new();
    for s in &w.strs {
        o.push_str(&format!("s {s:?}\n"));
    }
    for i in &w.ints {
        o.push_str(&format!("i {i}\n"));
    }
    o
}

fn parse(s: &str) -> Words {
    let mut w = Words::default();
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("i ") {
            w.ints.extend(x.parse::<u64>().ok());
        } else if let Some(x) = l.strip_prefix("s ") {
            let b: Vec<char> = x.chars().collect();
            if b.len() >= 2 {
                w.strs.push(unescape(&b[1..b.len() - 1]));
            }
        }
    }
    w
}

pub fn harvest_dir(dir: &str) -> Words {
    let mut files: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    files.sort();
    let (mut strs, mut ints) = (BTreeSet::new(), BTreeSet::new());
    for f in files {
        let name = f.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
        if f.is_dir() {
            let w = harvest_dir(&f.to_string_lossy());
            strs.extend(w.strs);
            ints.extend(w.ints);
        } else if name.ends_with(".rs") && !name.starts_with("test") {
            if let Ok(s) = std::fs::read_to_string(&f) {
                harvest(&s, &mut strs, &mut ints);
            }
        }
    }
    Words {
        strs: strs.into_iter().collect(),
        ints: ints.into_iter().collect(),
    }
}

fn unescape(c: &[char]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' || i + 1 >= c.len() {
            o.push(c[i]);
            i += 1;
            continue;
        }
        i += 2;
        match c[i - 1] {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            'x' => {
                let h: String = c[i..(i + 2).min(c.len())].iter().collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += 2;
            }
            'u' => {
                let h: String = c[i..].iter().skip(1).take_while(|x| **x != '}').collect();
                o.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
                i += h.chars().count() + 2;
            }
            '\n' => {
                while i < c.len() && c[i].is_whitespace() {
                    i += 1;
                }
            }
            x => o.push(x),
        }
    }
    o
}

fn harvest(s: &str, strs: &mut BTreeSet<String>, ints: &mut BTreeSet<u64>) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut add = |s: String| {
        // what a format string consists of, too
        for p in s.split(['{', '}']).chain([s.as_str()]) {
            if !p.is_empty() && p.len() <= 40 {
                strs.insert(p.to_string());
            }
        }
    };
    // the last number and the operator behind it, to evaluate `1 << 20` and the like
    let mut pending: Option<(u64, u8)> = None;
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && (i == 0 || !c[i - 1].is_alphanumeric()) {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let b = i;
            while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                i += 1;
            }
            add(c[b..i.min(c.len())].iter().collect());
            i += 1 + n;
        } else if x == '"' {
            let b = i + 1;
            i = b;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            add(unescape(&c[b..i.min(c.len())]));
            i += 1;
        } else if x == '\'' {
            let b = i + 1;
            if at(b) == '\\' {
                i = b + 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                add(unescape(&c[b..i.min(c.len())]));
                i += 1;
            } else if at(b + 1) == '\'' {
                add(c[b].to_string());
                i = b + 2;
            } else {
                i = b; // a lifetime
            }
        } else if x.is_ascii_digit() {
            let mut w = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                w.extend((at(i) != '_').then_some(at(i)));
                i += 1;
            }
            let v = match w.get(..2) {
                Some("0x") => {
                    let d: String = w[2..].chars().take_while(char::is_ascii_hexdigit).collect();
                    u64::from_str_radix(&d, 16).ok()
                }
                Some("0b") => u64::from_str_radix(&w[2..].chars().take_while(|c| matches!(c, '0' | '1')).collect::<String>(), 2).ok(),
                _ => w.chars().take_while(char::is_ascii_digit).collect::<String>().parse().ok(),
            };
            if let Some(v) = v {
                let v = match pending.take() {
                    Some((a, b'<')) => a.checked_shl(v as u32).unwrap_or(v),
                    Some((a, b'*')) => a.saturating_mul(v),
                    _ => v,
                };
                if v <= 1 << 24 {
                    ints.insert(v);
                }
                while at(i) == ' ' {
                    i += 1;
                }
                if at(i) == '<' && at(i + 1) == '<' {
                    pending = Some((v, b'<'));
                    i += 2;
                } else if at(i) == '*' {
                    pending = Some((v, b'*'));
                    i += 1;
                }
            }
        } else if x.is_alphanumeric() || x == '_' {
            pending = None;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
        } else {
            if !x.is_whitespace() {
                pending = None;
            }
            i += 1;
        }
    }
}

/// Whether the source has anything that the base has not.
pub fn fresh() -> bool {
    let d = get();
    !d.new.strs.is_empty() || !d.new.ints.is_empty()
}

/// A string of the source, preferably a new one.
pub fn word(t: &mut Tape) -> &'static str {
    let d = get();
    if !d.new.strs.is_empty() && t.chance(4, 5) {
        t.pick(&d.new.strs)
    } else if d.base.strs.is_empty() {
        ""
    } else {
        t.pick(&d.base.strs)
    }
}

/// A number of the source, preferably a new one, or one next to it.
pub fn int(t: &mut Tape) -> usize {
    let d = get();
    let v = if !d.new.ints.is_empty() && t.chance(4, 5) {
        *t.pick(&d.new.ints)
    } else if d.base.ints.is_empty() {
        1
    } else {
        *t.pick(&d.base.ints)
    } as usize;
    match t.weighted(&[4, 4, 3, 1, 1]) {
        0 => v,
        1 => v + 1,
        2 => v.saturating_sub(1),
        3 => v * 2,
        _ => v + t.usize(8),
    }
}

/// The new strings, as the operating system passes them on.
pub fn c_words() -> &'static [std::ffi::CString] {
    static C: OnceLock<Vec<std::ffi::CString>> = OnceLock::new();
    C.get_or_init(|| get().new.strs.iter().filter_map(|s| std::ffi::CString::new(s.as_str()).ok()).collect())
}

/// A number to use instead of `v`: `v` itself unless the source has new numbers.
pub fn int_or(t: &mut Tape, v: usize, most: usize) -> usize {
    if !get().new.ints.is_empty() && t.chance(1, 3) {
        int(t).min(most)
    } else {
        v
    }
}
