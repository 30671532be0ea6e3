//! W01: the write methods against to_string, with writers that accept little, are interrupted, or fail.
use crate::dict::*;
use crate::util::{Case, Search};
use crate::{css as c, js as s, json as j};
use minifier::{css, js, json};
use std::io::{Error, ErrorKind, Write};

/// Takes at most the number of bytes the script's digit says, is interrupted at an `i`; when `fail`
/// bytes are there it fails once, as `how` says, and then goes on.
struct Sink {
    data: Vec<u8>,
    script: Vec<char>,
    at: usize,
    fail: Option<usize>,
    how: char,
    failed: bool,
    kind: ErrorKind,
}
/// what writers fail with
pub const KINDS: [ErrorKind; 22] = [
    ErrorKind::StorageFull,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::ResourceBusy,
    ErrorKind::FileTooLarge,
];
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let ch = if self.script.is_empty() { '9' } else { self.script[self.at % self.script.len()] };
        self.at += 1;
        if ch == 'i' {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = if self.script.is_empty() { b.len() } else { b.len().min(ch as usize - '0' as usize) };
        if let Some(f) = self.fail {
            if !self.failed {
                if self.data.len() >= f {
                    self.failed = true;
                    return if self.how == '0' { Ok(0) } else { Err(Error::new(self.kind, "boom")) };
                }
                n = n.min(f - self.data.len());
            }
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct FmtSink {
    data: String,
    fail: usize,
    failed: bool,
}
impl std::fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for ch in s.chars() {
            if !self.failed && self.data.len() >= self.fail {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.data.push(ch);
        }
        Ok(())
    }
}

fn texts(lang: &str, src: &str) -> Option<String> {
    match lang {
        "json" => Some(json::minify(src).to_string()),
        "css" => css::minify(src).ok().map(|m| m.to_string()),
        "js" => js::minify(src).ok().map(|m| m.to_string()),
        _ => js::simple_minify(src).ok().map(|m| m.to_string()),
    }
}
fn write(lang: &str, src: &str, w: &mut Sink) -> std::io::Result<()> {
    match lang {
        "json" => json::minify(src).write(w),
        "css" => css::minify(src).unwrap().write(w),
        "js" => js::minify(src).unwrap().write(w),
        _ => write!(w, "{}", js::simple_minify(src).unwrap()),
    }
}
fn display(lang: &str, src: &str, w: &mut FmtSink) -> std::fmt::Result {
    use std::fmt::Write as _;
    match lang {
        "json" => write!(w, "{}", json::minify(src)),
        "css" => write!(w, "{}", css::minify(src).unwrap()),
        "js" => write!(w, "{}", js::minify(src).unwrap()),
        _ => write!(w, "{}", js::simple_minify(src).unwrap()),
    }
}
fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn case(k: &Case) -> Result<bool, String> {
    let (lang, src) = (k.get("lang"), k.get("src"));
    let Some(text) = texts(lang, src) else { return Ok(false) };
    let t = text.as_bytes();
    let script: Vec<char> = k.get("script").chars().collect();
    let what = format!("{lang}, {src:?}, a writer that takes {:?} bytes", k.get("script"));
    let mut w = Sink { data: vec![], script: script.clone(), at: 0, fail: None, how: 'e', failed: false, kind: ErrorKind::Other };
    let r = write(lang, src, &mut w);
    if r.is_err() || w.data != t {
        return Err(format!("{what}: write gives {r:?} and {:?}, to_string {text:?}", lossy(&w.data)));
    }
    // every place to fail at, or a sample of them
    let step = t.len() / 40 + 1;
    for n in (0..t.len()).step_by(step) {
        // (with another error at every place)
        let err = KINDS[(n / step + t.len() * 5) % KINDS.len()];
        for how in ['e', '0'] {
            let mut w = Sink { data: vec![], script: script.clone(), at: 0, fail: Some(n), how, failed: false, kind: err };
            let r = write(lang, src, &mut w);
            let kind = r.as_ref().err().map(|e| e.kind());
            let want = if how == 'e' { err } else { ErrorKind::WriteZero };
            if kind != Some(want) {
                return Err(format!("{what} and fails ({want:?}) after {n}: write gives {r:?}"));
            }
            if !t.starts_with(&w.data) {
                return Err(format!("{what} and fails after {n}: {:?} is written, no prefix of {text:?}", lossy(&w.data)));
            }
        }
        if !text.is_char_boundary(n) {
            continue;
        }
        let mut f = FmtSink { data: String::new(), fail: n, failed: false };
        let r = display(lang, src, &mut f);
        if r.is_ok() || !text.starts_with(&f.data) {
            return Err(format!("{lang}, {src:?}: a formatter that fails after {n} bytes: {r:?} and {:?}, to_string gives {text:?}", f.data));
        }
    }
    Ok(!t.is_empty())
}

pub fn search(s: &mut Search) {
    let scripts = ["", "1", "2", "i1", "3i2", "ii9", "12"];
    let mk = |lang: &'static str| move |x: &str| Case::src(x).with("lang", lang).with("script", ["", "1", "3i2"][x.len() % 3]);
    let n = if s.thorough { 5 } else { 3 };
    s.exhaustive(&["\"", "\\", " ", "a", "é", "𝄞", "{", "\n"], n + 1, &mk("json"));
    s.exhaustive(&["a", " ", "{", "}", ":", ";", "/*!l*/", "\"é\"", "@m", "#", ".", ">", "~=", "+", "*", "/", "calc(", ")", "\\", "&"], n, &mk("css"));
    s.exhaustive(&["a", " ", "/x/gi", "=", "in", "/*!l*/", "\"é\"", "1", "1.5", "+", ";", "`t`", "(", ")", "// */\n", "/* c */"], n, &mk("js"));
    s.exhaustive(&["a", " ", "/x/gi", "=", "instanceof", "/*!l*/", "\"é\"", "1", "1.5", "<=", "// */\n", "/* c */", "//c\n", "\r"], n, &mk("tokens"));
    s.phase("random JSON documents, style sheets and programs, with writers that take few bytes");
    while !s.out_of_time() {
        for _ in 0..100 {
            let sc = *s.rng.pick(&scripts);
            let (lang, t) = match s.rng.below(4) {
                0 => ("json", j::gen_json(&mut s.rng, 4)),
                1 => ("css", c::gen_sheet(&mut s.rng)),
                2 => ("js", s::gen_program(&mut s.rng)),
                _ => ("tokens", s::gen_program(&mut s.rng)),
            };
            let t = spice(&mut s.rng, &t);
            s.check(Case::src(&t).with("lang", lang).with("script", sc));
        }
        if !s.thorough && !s.within(0.6) {
            break;
        }
    }
}
