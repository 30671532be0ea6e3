use crate::dict::*;
use crate::util::*;
use std::io::Read;

/// The specification, executable: what `minify` must return.
pub fn jmin(s: &str) -> String {
    #[derive(PartialEq, Clone, Copy)]
    enum X { Out, Str, Esc }
    let mut x = X::Out;
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) < 0x20 {
            continue;
        }
        if !(x == X::Out && c.is_whitespace()) {
            o.push(c);
        }
        x = match (x, c) {
            (X::Out, '"') => X::Str,
            (X::Out, _) => X::Out,
            (X::Str, '\\') => X::Esc,
            (X::Str, '"') => X::Out,
            (X::Str, _) | (X::Esc, _) => X::Str,
        };
    }
    o
}

pub fn case_j01(c: &Case) -> Result<bool, String> {
    let s = c.get("src");
    let want = jmin(s);
    let got = minifier::json::minify(s).to_string();
    if got != want {
        return Err(format!("minify({s:?}) = {got:?}, the specification gives {want:?}"));
    }
    let again = minifier::json::minify(&got).to_string();
    if again != got {
        return Err(format!("not idempotent: minify({got:?}) = {again:?}"));
    }
    Ok(s.contains('"') && got.len() < s.len())
}

pub fn gen_json(r: &mut Rng, depth: usize) -> String {
    fn ws(r: &mut Rng) -> &'static str {
        r.pick(&["", "", " ", "\n", "\t ", "\r\n  ", "\u{a0}"])
    }
    fn st(r: &mut Rng) -> String {
        let n = r.below(7);
        let mut s = String::from("\"");
        for _ in 0..n {
            s.push_str(r.pick(&["a", " ", "\\\"", "\\\\", "\\n", "\\u00e9", "é", "\u{7f}", "日", "{", "}", ":", ",", "  ", "/", "𝄞", "\u{2028}", "\\/"]));
        }
        s.push('"');
        s
    }
    let k = if depth == 0 { r.below(4) } else { r.below(7) };
    let mut o = String::new();
    o.push_str(ws(r));
    match k {
        0 => o.push_str(r.pick(&["true", "false", "null"])),
        1 => o.push_str(r.pick(&["0", "-1.5e+10", "42", "1E-2"])),
        2 | 3 => o.push_str(&st(r)),
        4 => {
            o.push('[');
            for i in 0..r.below(4) {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(&gen_json(r, depth - 1));
            }
            o.push(']');
        }
        _ => {
            o.push('{');
            for i in 0..r.below(4) {
                if i > 0 {
                    o.push(',');
                }
                o.push_str(ws(r));
                o.push_str(&st(r));
                o.push_str(ws(r));
                o.push(':');
                o.push_str(&gen_json(r, depth - 1));
            }
            o.push('}');
        }
    }
    o.push_str(ws(r));
    o
}

const CHARS: [&str; 25] = [
    "\u{feff}", "\u{200b}", "\u{9b}", "\"", "\"", "\\", "\\", " ", "\n", "\t", "\u{7f}", "\u{1f}", "\u{85}", "\u{a0}", "\u{3000}", "\u{2028}", "a", "é", "日", "𝄞", "{", "}", ":", ",", "\0",
];

pub fn rand_chars(r: &mut Rng, alpha: &[&str], max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

pub fn search_j01(s: &mut Search) {
    let n = if s.thorough { 7 } else { 6 };
    s.exhaustive(&["\"", "\\", " ", "\n", "a", "\u{7f}", "\u{a0}", "{"], n, &|x| Case::src(x));
    s.phase("every char alone: outside, inside and escaped in a string");
    for u in 0..=0x10ffffu32 {
        if let Some(c) = char::from_u32(u) {
            s.check(Case::src(&format!("{c}x\"{c}\\{c}{c}\"{c}")));
        }
    }
    s.phase("random strings and random JSON documents");
    while !s.out_of_time() {
        for _ in 0..200 {
            let t = if s.rng.chance(1, 2) { rand_chars(&mut s.rng, &CHARS, 40) } else { gen_json(&mut s.rng, 4) };
            let t = spice(&mut s.rng, &t);
            s.check(Case::src(&t));
        }
        if !s.thorough && !s.within(0.5) {
            break;
        }
    }
}

// ---------------------------------------------------------------------------------- J02: readers
/// A reader that serves `data` as the script says: a digit n = at most n bytes, `i` = Interrupted,
/// `e` = another I/O error (once), then in order again from the first number; 0 only at the end.
pub struct Script {
    data: Vec<u8>,
    pos: usize,
    script: Vec<char>,
    at: usize,
    pub eof_seen: bool,
    /// the errors other than Interrupted it has failed with
    pub failed: std::rc::Rc<std::cell::RefCell<Vec<std::io::ErrorKind>>>,
}

impl Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = if self.script.is_empty() { '9' } else { self.script[self.at % self.script.len()] };
        let first = self.at < self.script.len();
        self.at += 1;
        match c {
            'i' => return Err(std::io::ErrorKind::Interrupted.into()),
            'e' if first => {
                let kinds = crate::write::KINDS;
                let kind = kinds[(self.at + 3 * self.data.len()) % kinds.len()];
                self.failed.borrow_mut().push(kind);
                return Err(std::io::Error::new(kind, "boom"));
            }
            _ => {}
        }
        let n = c.to_digit(10).unwrap_or(3).max(1) as usize * if c == '9' { 1000 } else { 1 };
        let n = n.min(buf.len()).min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            self.eof_seen = true;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn hexdec(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hexenc(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// src: text, or hex: raw bytes. script: see Script. dst: sizes of the caller's buffers, in turn.
pub fn case_j02(c: &Case) -> Result<bool, String> {
    let data: Vec<u8> = if c.get("hex").is_empty() { c.get("src").as_bytes().to_vec() } else { hexdec(c.get("hex")) };
    let script: Vec<char> = c.get("script").chars().collect();
    // an endless reader of Interrupted says nothing
    if !script.is_empty() && script.iter().all(|c| matches!(c, 'i' | 'e')) {
        return Ok(false);
    }
    let dst: Vec<usize> = c.get("dst").split(',').filter_map(|x| x.parse().ok()).filter(|x| *x > 0).collect();
    let dst = if dst.is_empty() { vec![16] } else { dst };
    let text = std::str::from_utf8(&data);
    let failed = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let mut rd = minifier::json::minify_from_read(Script {
        data: data.clone(),
        pos: 0,
        script: script.clone(),
        at: 0,
        eof_seen: false,
        failed: failed.clone(),
    });
    let mut got: Vec<u8> = vec![];
    let mut errs: Vec<std::io::ErrorKind> = vec![];
    let mut k = 0;
    let mut zero = 0;
    let mut steps = 0;
    let mut empty = [0u8; 0];
    match rd.read(&mut empty) {
        Ok(0) => {}
        r => return Err(format!("read into an empty buffer gives {r:?}")),
    }
    loop {
        steps += 1;
        if steps > 20 * (data.len() + 10) {
            return Err("read never reaches the end".into());
        }
        let n = dst[k % dst.len()];
        k += 1;
        let mut buf = vec![0xAAu8; n];
        match rd.read(&mut buf) {
            Ok(0) => {
                zero += 1;
                if zero == 2 {
                    break;
                }
            }
            Ok(m) => {
                if zero > 0 {
                    return Err(format!("bytes {:?} after the end was reported", &buf[..m]));
                }
                if m > n {
                    return Err(format!("read returned {m} for a buffer of {n}"));
                }
                if buf[m..].iter().any(|b| *b != 0xAA) {
                    return Err("read wrote past what it reported".into());
                }
                got.extend_from_slice(&buf[..m]);
            }
            Err(e) => {
                errs.push(e.kind());
                if text.is_err() {
                    break;
                }
                if errs.len() > script.len() {
                    return Err("an error is reported more than once".into());
                }
            }
        }
    }
    match text {
        Ok(t) => {
            let want = jmin(t);
            let failed = failed.borrow();
            if errs != *failed {
                return Err(format!("a valid UTF-8 source failing with {failed:?} gives the errors {errs:?}"));
            }
            if got != want.as_bytes() {
                return Err(format!("read gives {:?}, minify gives {want:?}", String::from_utf8_lossy(&got)));
            }
        }
        Err(e) => {
            let n_e = script.iter().filter(|c| **c == 'e').count();
            if n_e == 0 {
                if errs != [std::io::ErrorKind::InvalidData] {
                    return Err(format!("invalid UTF-8 gives {errs:?} and output {:?}", String::from_utf8_lossy(&got)));
                }
                let pre = jmin(std::str::from_utf8(&data[..e.valid_up_to()]).unwrap());
                if !pre.as_bytes().starts_with(&got) {
                    return Err(format!("output {:?} before the error is not a prefix of {pre:?}", String::from_utf8_lossy(&got)));
                }
            }
        }
    }
    Ok(data.len() > 2 && got.len() < data.len() && (script.len() > 1 || dst.len() > 1 || dst[0] < data.len()))
}

fn size(r: &mut Rng) -> usize {
    let d = dict();
    if !d.nums.is_empty() && r.chance(1, 3) {
        return (*r.pick(&d.nums) + 2).saturating_sub(r.below(4)).clamp(1, 5000);
    }
    let m = if r.chance(1, 8) { 300 } else { 12 };
    1 + r.below(m)
}
pub fn search_j02(s: &mut Search) {
    s.phase("small texts x destination sizes 1..5 x source chunkings");
    let texts = [
        "", " ", "a", "\"\"", " \"a b\" ", "[1, 2]", "{\"a\": \"é \"}", "\"日本\" ", "\"𝄞\"", "\"a\\\\\" \"b\"", "[\"\\\"\", \" x\"]", "  \n ", "é", " é ", "日 𝄞 é", "{ \"k\" : [ 1 , 2 , \" \" ] } ",
        "\"a\\\" \" ", "aaaaaaaaaaaaaaaa                b",
    ];
    let scripts = ["", "1", "2", "3", "12", "21", "5", "i1", "1i", "2i3", "ii9", "1e", "e1", "21e", "9e", "111e1"];
    for t in texts {
        for sc in scripts {
            for d in ["1", "2", "3", "4", "5", "7", "64", "1,2", "3,1", "2,5,1"] {
                s.check(Case::src(t).with("script", sc).with("dst", d));
            }
        }
    }
    s.phase("all byte strings of length <= 2, and around UTF-8 boundaries, with small buffers");
    for a in 0..=255u8 {
        for d in ["1", "3"] {
            s.check(Case::default().with("hex", hexenc(&[a])).with("script", "1").with("dst", d));
        }
        for b in 0..=255u8 {
            s.check(Case::default().with("hex", hexenc(&[b'"', a, b])).with("script", "2").with("dst", "2"));
        }
    }
    let edge = [0x00u8, 0x22, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff];
    for a in edge {
        for b in edge {
            for c in edge {
                for d in edge {
                    s.check(Case::default().with("hex", hexenc(&[a, b, c, d])).with("script", "").with("dst", "3"));
                }
            }
        }
    }
    s.phase("random texts, chunkings and buffer sizes");
    while !s.out_of_time() {
        for _ in 0..100 {
            let t = if s.rng.chance(1, 2) { rand_chars(&mut s.rng, &CHARS, 60) } else { gen_json(&mut s.rng, 4) };
            let t = spice(&mut s.rng, &t);
            let n = s.rng.below(6);
            let sc: String = (0..n).map(|_| *s.rng.pick(&['1', '2', '3', '4', '5', '7', '9', 'i', 'i', 'e'])).collect();
            let n = 1 + s.rng.below(3);
            let d: Vec<String> = (0..n).map(|_| size(&mut s.rng).to_string()).collect();
            if s.rng.chance(1, 5) {
                let mut b = t.into_bytes();
                if !b.is_empty() {
                    let i = s.rng.below(b.len());
                    b[i] = s.rng.next() as u8;
                }
                s.check(Case::default().with("hex", hexenc(&b)).with("script", sc).with("dst", d.join(",")));
            } else {
                s.check(Case::src(&t).with("script", sc).with("dst", d.join(",")));
            }
        }
        if !s.thorough && !s.within(0.5) {
            break;
        }
    }
}
