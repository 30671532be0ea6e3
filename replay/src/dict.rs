//! Words for the search: the literals of the current source of /repo, above all those that were
//! not in it when the checks were made (../literals.txt).
use crate::util::Rng;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub fresh: Vec<String>,
    pub nums: Vec<usize>,
    pub all: Vec<String>,
    /// longer texts, to start from
    pub long: Vec<String>,
}

fn lits(t: &str, out: &mut BTreeSet<String>) {
    let v: Vec<char> = t.chars().collect();
    let at = |i: usize| v.get(i).copied().unwrap_or('\0');
    let esc = |i: &mut usize, o: &mut String| {
        // at a backslash
        *i += 1;
        let c = at(*i);
        *i += 1;
        match c {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            'x' => {
                let h: String = (0..2).map(|k| at(*i + k)).collect();
                *i += 2;
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            'u' => {
                *i += 1;
                let mut h = String::new();
                while *i < v.len() && at(*i) != '}' {
                    h.push(at(*i));
                    *i += 1;
                }
                *i += 1;
                o.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
            }
            '\n' => {
                while at(*i).is_whitespace() {
                    *i += 1;
                }
            }
            c => o.push(c),
        }
    };
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == '/' && at(i + 1) == '/' {
            while i < v.len() && v[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < v.len() && !(v[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) {
            let mut n = 0;
            i += 1;
            while at(i) == '#' {
                n += 1;
                i += 1;
            }
            i += 1;
            let mut o = String::new();
            while i < v.len() && !(v[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                o.push(v[i]);
                i += 1;
            }
            i += 1 + n;
            out.insert(o);
        } else if c == '"' {
            i += 1;
            let mut o = String::new();
            while i < v.len() && v[i] != '"' {
                if v[i] == '\\' {
                    esc(&mut i, &mut o);
                } else {
                    o.push(v[i]);
                    i += 1;
                }
            }
            i += 1;
            out.insert(o);
        } else if c == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            i += 1;
            let mut o = String::new();
            if v[i] == '\\' {
                esc(&mut i, &mut o);
            } else {
                o.push(v[i]);
                i += 1;
            }
            if at(i) == '\'' {
                i += 1;
                out.insert(o);
            }
        } else if c.is_ascii_digit() {
            let mut o = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                o.push(v[i]);
                i += 1;
            }
            let o = o.replace('_', "");
            let o = o.strip_suffix("usize").or(o.strip_suffix("u8")).or(o.strip_suffix("u32")).or(o.strip_suffix("i32")).or(o.strip_suffix("u64")).unwrap_or(&o);
            let n = match o.strip_prefix("0x") {
                Some(h) => usize::from_str_radix(h, 16).ok(),
                None => o.parse().ok(),
            };
            if let Some(n) = n {
                out.insert(format!("#{n}"));
            }
        } else if c.is_alphanumeric() || c == '_' {
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}
fn scan(d: &Path, out: &mut BTreeSet<String>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            scan(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                lits(&t, out);
            }
        }
    }
}
fn now() -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    scan(&Path::new(&repo).join("src"), &mut s);
    s
}
pub fn print_all() {
    for l in now() {
        println!("{l:?}");
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let old: BTreeSet<&str> = include_str!("../literals.txt").lines().collect();
        let mut d = Dict::default();
        for l in now() {
            let fresh = !old.contains(format!("{l:?}").as_str());
            if let Some(n) = l.strip_prefix('#').and_then(|x| x.parse::<usize>().ok()) {
                if fresh && n < 100_000 {
                    d.nums.push(n);
                    if n > 31 {
                        d.fresh.extend(char::from_u32(n as u32).map(|c| c.to_string()));
                    }
                    d.fresh.push(n.to_string());
                }
            } else if l.chars().count() <= 60 && !l.is_empty() {
                if fresh {
                    d.fresh.push(l.clone());
                }
                if l.chars().count() <= 24 {
                    d.all.push(l);
                } else {
                    d.long.push(l);
                }
            } else if l.len() < 2000 {
                d.long.push(l);
            }
        }
        d
    })
}

/// Puts words of the dictionary into a text, and repeats parts of it, at times.
pub fn spice(r: &mut Rng, t: &str) -> String {
    let d = dict();
    let hot = !d.fresh.is_empty() || !d.nums.is_empty();
    if !(if hot { r.chance(1, 2) } else { r.chance(1, 12) }) || d.all.is_empty() {
        return t.to_string();
    }
    let mut v: Vec<char> = if r.chance(1, 4) && !d.long.is_empty() { r.pick(&d.long).chars().collect() } else { t.chars().collect() };
    for _ in 0..1 + r.below(3) {
        let k = r.below(v.len() + 1);
        if r.chance(1, 4) {
            // a part of the text, or a word, many times over
            let n = if !d.nums.is_empty() && r.chance(3, 4) { (*r.pick(&d.nums) + 2).saturating_sub(r.below(4)) } else { *r.pick(&[2, 3, 5, 9, 17, 33, 65, 129, 257]) };
            let e = (k + 1 + r.below(5)).min(v.len());
            let piece: Vec<char> = if r.chance(1, 3) { r.pick(&["a", "(", "{", "é", " ", "\n", "\\", "1", ";", "[", "\"", "'"]).chars().collect() } else { v[k..e].to_vec() };
            let n = if piece.is_empty() { 0 } else { n.min(12_000 / piece.len()) };
            let all: Vec<char> = (0..n).flat_map(|_| piece.iter().copied()).collect();
            v.splice(k..k, all);
        } else {
            let w = if !d.fresh.is_empty() && r.chance(3, 4) { r.pick(&d.fresh) } else { r.pick(&d.all) };
            let w: String = match r.below(6) {
                0 => w.to_uppercase(),
                1 => format!(" {w} "),
                2 if r.chance(1, 2) => w.chars().chain(w.chars()).collect(),
                _ => w.clone(),
            };
            let e = if r.chance(1, 4) { (k + r.below(4)).min(v.len()) } else { k };
            v.splice(k..e, w.chars());
        }
    }
    v.into_iter().collect()
}
/// a word that can be a file's name
pub fn name(r: &mut Rng) -> Option<String> {
    let d = dict();
    let l = if !d.fresh.is_empty() && r.chance(3, 4) { &d.fresh } else { &d.all };
    if l.is_empty() {
        return None;
    }
    let w = r.pick(l).clone();
    let ok = w.len() <= 40 && !w.is_empty() && !w.contains("..") && w.chars().all(|c| c.is_alphanumeric() || c == '.' || c == '_');
    ok.then_some(w)
}
