//! The CSS specification of proofs/css_spec.vs, executable, and inputs for it.
use crate::dict::*;
use crate::util::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Word(String),
    Pseudo(String),
    At(String),
    Str(String),
    Lic(String),
    SelOp(char),
    Res(char),
}
use T::*;
#[derive(Clone, Debug)]
pub struct E {
    pub t: T,
    pub gap: bool,
}

fn blank(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}
fn reserved(c: char) -> bool {
    blank(c) || "'\",(){}[]:;/*+=>|~$^\\".contains(c)
}
fn sensitive(t: &T) -> bool {
    match t {
        Res(c) => "/*+)]".contains(*c),
        _ => true,
    }
}
fn ends_in(a: &[E], c: char) -> bool {
    a.last().is_some_and(|e| !e.gap && e.t == Res(c))
}
fn word(s: &[char], st: usize, b: usize, acc: &mut Vec<E>, sel: bool) {
    if st >= b {
        return;
    }
    let x: String = s[st..b].iter().collect();
    let one = |t| E { t, gap: false };
    if sel && ends_in(acc, ':') && s[st - 1] == ':' {
        acc.pop();
        acc.push(one(Pseudo(x)));
    } else if sel && x.starts_with('@') && b - st > 1 && !ends_in(acc, ':') {
        acc.push(one(At(x)));
    } else {
        acc.push(one(Word(x)));
    }
}

/// None: malformed
pub fn css_tokens(src: &str) -> Option<Vec<E>> {
    let s: Vec<char> = src.chars().collect();
    let mut acc: Vec<E> = vec![];
    let (mut st, mut i, mut depth, mut media, mut attr) = (0, 0, 0usize, false, false);
    let one = |t| E { t, gap: false };
    fn mark(a: &mut [E]) {
        if let Some(e) = a.last_mut() {
            e.gap = true;
        }
    }
    loop {
        let sel = !attr && ((depth == 0 && !media) || (depth == 1 && media));
        if i >= s.len() {
            word(&s, st, s.len(), &mut acc, sel);
            return Some(acc);
        }
        let c = s[i];
        if !reserved(c) {
            i += 1;
            continue;
        }
        word(&s, st, i, &mut acc, sel);
        media = media || acc.last().is_some_and(|e| !e.gap && matches!(e.t, At(_)));
        let mut next = i + 1;
        match c {
            '\\' => {
                acc.push(one(Res('\\')));
                if i + 1 < s.len() {
                    acc.push(one(Word(s[i + 1].to_string())));
                    next = i + 2;
                }
            }
            '"' | '\'' => {
                let mut k = i + 1;
                loop {
                    match s.get(k) {
                        None => return None,
                        Some('\\') => k += 2,
                        Some(d) if *d == c => break,
                        _ => k += 1,
                    }
                }
                acc.push(one(Str(s[i..=k].iter().collect())));
                next = k + 1;
            }
            '/' if s.get(i + 1) == Some(&'*') => {
                let mut k = i + 3;
                while k < s.len() && !(s[k] == '/' && s[k - 1] == '*') {
                    k += 1;
                }
                if k >= s.len() {
                    return None;
                }
                let lic = match s.get(i + 2) {
                    Some('!') => true,
                    Some('*') => s.get(i + 3) != Some(&'/'),
                    _ => false,
                };
                if lic {
                    acc.push(one(Lic(s[i + 3..k - 1].iter().collect())));
                } else {
                    mark(&mut acc);
                }
                next = k + 1;
            }
            '[' => {
                if attr {
                    return None;
                }
                attr = true;
                acc.push(one(Res(c)));
            }
            ']' => {
                if !attr {
                    return None;
                }
                attr = false;
                acc.push(one(Res(c)));
            }
            '{' => {
                depth += 1;
                acc.push(one(Res(c)));
            }
            '}' => {
                if depth == 0 {
                    return None;
                }
                depth -= 1;
                if depth == 0 {
                    media = false;
                }
                acc.push(one(Res(c)));
            }
            ';' => {
                if depth == 0 {
                    media = false;
                }
                acc.push(one(Res(c)));
            }
            '=' if "~|$^*".chars().any(|x| ends_in(&acc, x)) => {
                let Some(E { t: Res(x), .. }) = acc.pop() else { unreachable!() };
                acc.push(one(SelOp(x)));
            }
            c if blank(c) => {
                if acc.last().is_some_and(|e| sensitive(&e.t)) {
                    mark(&mut acc);
                }
            }
            c => acc.push(one(Res(c))),
        }
        st = next;
        i = next;
    }
}

const MATH: &[&str] = &[
    "calc", "calc-size", "-webkit-calc", "-moz-calc", "min", "max", "clamp", "round", "mod", "rem", "sin", "cos", "tan", "asin", "acos", "atan",
    "atan2", "pow", "sqrt", "hypot", "log", "exp", "abs", "sign",
];
fn is_math(t: &T) -> bool {
    match t {
        Word(n) | Pseudo(n) => MATH.iter().any(|m| m.eq_ignore_ascii_case(n)),
        _ => false,
    }
}
fn wordy(t: &T) -> bool {
    matches!(t, Word(_) | Pseudo(_))
}
fn starts_word(a: &[E], k: usize) -> bool {
    k < a.len() && {
        let t = &a[k].t;
        wordy(t)
            || matches!(t, At(_) | Res('*') | Res('[') | Res('\\'))
            || (*t == Res(':') && k + 1 < a.len() && !a[k].gap && matches!(a[k + 1].t, Res(':') | Pseudo(_)))
    }
}
/// for every j: does white space between a[j] and a[j + 1] have a meaning?
pub fn required(a: &[E]) -> Vec<bool> {
    let (mut on, mut p) = (false, 0i64);
    let mut r = vec![];
    for j in 0..a.len() {
        let t = &a[j].t;
        if on {
            if *t == Res(')') {
                p -= 1;
                on = p != 0;
            } else if *t == Res('(') {
                p += 1;
            }
        } else {
            on = is_math(t) && !a[j].gap && a.get(j + 1).is_some_and(|n| n.t == Res('('));
        }
        let Some(n) = a.get(j + 1).map(|n| &n.t) else {
            r.push(false);
            continue;
        };
        let ends = wordy(t) || matches!(t, Res(')') | Res(']') | Res('*'));
        r.push(
            (ends && starts_word(a, j + 1))
                || (wordy(t) && *n == Res('('))
                || (*t == Res('/') && *n == Res('*'))
                || (on && (*t == Res('+') || *n == Res('+')) && *t != Res(']') && sensitive(t)),
        );
    }
    r
}
pub fn text(t: &T) -> String {
    match t {
        Word(s) | At(s) | Str(s) => s.clone(),
        Pseudo(s) => format!(":{s}"),
        Lic(s) => format!("/*!{s}*/"),
        SelOp(c) => format!("{c}="),
        Res(c) => c.to_string(),
    }
}

pub enum Bad {
    C01(String),
    C02(String),
    C03(String),
}

pub fn judge(src: &str) -> Result<bool, Bad> {
    let toks = css_tokens(src);
    let got = minifier::css::minify(src).map(|m| m.to_string());
    let (a, out) = match (toks, got) {
        (None, Err(_)) => return Ok(true),
        (None, Ok(o)) => return Err(Bad::C01(format!("minify({src:?}) = Ok({o:?}), but the text is malformed"))),
        (Some(_), Err(e)) => return Err(Bad::C01(format!("minify({src:?}) = Err({e:?}), but the text is well formed"))),
        (Some(a), Ok(o)) => (a, o),
    };
    let o: Vec<char> = out.chars().collect();
    let req = required(&a);
    let mut p = 0;
    while p < o.len() && blank(o[p]) && !matches!(a.first(), Some(E { t: Word(_), .. })) {
        p += 1;
    }
    while p < o.len() && blank(o[p]) {
        p += 1;
    }
    let mut some = false;
    for j in 0..a.len() {
        let t = text(&a[j].t);
        let n = t.chars().count();
        if p + n > o.len() || o[p..p + n].iter().collect::<String>() != t {
            return Err(Bad::C02(format!("minify({src:?}) = {out:?}: token {j}, {t:?}, is not at character {p} of the output")));
        }
        p += n;
        let q = p;
        if a[j].t == Res('\\') && a.get(j + 1).is_some() && src.len() > 1 && matches!(&a[j + 1].t, Word(w) if w.chars().count() == 1 && blank(w.chars().next().unwrap())) {
            // an escaped blank
            continue;
        }
        while p < o.len() && blank(o[p]) {
            p += 1;
        }
        let must = a[j].gap && req[j];
        let may = a[j].gap || matches!(a[j].t, At(_) | Lic(_));
        some |= must;
        if p == q && must {
            return Err(Bad::C03(format!("minify({src:?}) = {out:?}: the white space after {t:?} (output character {q}) is lost")));
        }
        if p > q && !may {
            return Err(Bad::C03(format!("minify({src:?}) = {out:?}: white space after {t:?} (output character {q}) where the input has none")));
        }
    }
    if p != o.len() {
        return Err(Bad::C02(format!("minify({src:?}) = {out:?}: the output goes on after the last token, at character {p}")));
    }
    Ok(some || a.len() > 3)
}

pub fn case(prop: &str, c: &Case) -> Result<bool, String> {
    match (prop, judge(c.get("src"))) {
        ("C01", Err(Bad::C01(e))) | ("C02", Err(Bad::C02(e))) | ("C03", Err(Bad::C03(e))) => Err(e),
        (_, Ok(b)) => Ok(b),
        _ => Ok(true),
    }
}

const PIECES: &[&str] = &[
    "a", " ", "+", "(", ")", ":", "{", "}", ";", "*", "/", "@m", "[", "]", "=", "~", "\\", "\"x \"", "/*c*/", "/*!l*/", "calc", "-", ".b", ",", ">",
];
const MORE: &[&str] = &[
    "a", "b", "p", "é", "日", "\u{a0}", " ", " ", " ", "\n", "\t", "\r\n", "+", "-", "(", ")", ":", "::", "{", "}", ";", "*", "/", "@media", "@supports", "@",
    "[", "]", "=", "~", "|", "$", "^", "\\", "\"x y\"", "'a\\'b'", "\"", "'", "/*c*/", "/* c */", "/**/", "/***/", "/*!l*/", "/** l */", "/*", "*/",
    "calc", "calc(", "CALC(", "min(", "clamp(", "-webkit-calc(", "var(--x)", "1px", "2em", "50%", ".c", "#id", "div", ",", ">", "not", "and", "only",
    "screen", "!important", "url(a b)", ":hover", "::before", ":not(", ":nth-child(2n + 1)", "\u{feff}", "--v", "0", ".5", "+1", "U+0-7F", "\\ ", "\\{", "𝄞",
    "\"\\\\\"", "'\\\\'", "\"a\\\\\" \" b  c \"", "'\\\"  x'", "##a", "#", "..a", ".", "@@m", "@", ":::a", ".#a", "#.a", "a#b.c", "!", "!!a", "--", "&", "% ",
    "/*!*/", "/**!*/", "/*!/*/", "/*! ! */", "\u{c}", "\u{b}", "\0", "<!--", "-->", "\u{2028}", "\u{3000}", "?", "`", "_",
];

pub fn gen_sheet(r: &mut Rng) -> String {
    fn ws(r: &mut Rng) -> &'static str {
        r.pick(&["", "", " ", " ", "\n", "  ", "\t", "/* c */", " /*é*/ ", "\r\n"])
    }
    fn sel(r: &mut Rng, o: &mut String) {
        for i in 0..1 + r.below(4) {
            if i > 0 {
                o.push_str(r.pick(&[" ", " ", " > ", ">", "+", " + ", "~", ", ", ",", "/**/", ""]));
            }
            o.push_str(r.pick(&[
                "a", ".b", "#c", "*", "[x]", "[x=\"y\"]", "[x ~= 'y z']", "[x|=a]", "a:hover", "::after", ":not(.b, c)", "li:nth-child(2n + 1)", "div.é", "\\31 a", "##d", "..e", "#", ".", ".f.g", "#h#i", "@@j", "k:l:m", ":::n",
                "a:is(b c) d", "*[a] *", "@x",
            ]));
            o.push_str(ws(r));
        }
    }
    fn val(r: &mut Rng, o: &mut String, d: usize) {
        for i in 0..1 + r.below(4) {
            if i > 0 {
                o.push_str(r.pick(&[" ", " ", ", ", "/", " / ", " + ", " - ", " * ", "\n", "/**/"]));
            }
            match r.below(8) {
                0 if d > 0 => {
                    o.push_str(r.pick(&["calc(", "Calc(", "min(", "max (", "clamp(", "var(", "rgba(", "(", "-moz-calc(", "round("]));
                    val(r, o, d - 1);
                    o.push(')');
                }
                1 => o.push_str(r.pick(&["\"a  b\"", "\"\\\\\"", "'c\\\\' ' d  e'", "\"\\\\\\\"  \"", "'/* no */'", "\"\\\"\"", "''"])),
                _ => o.push_str(r.pick(&["1px", "red", "-1em", "+2", "50%", "--x", "#fff", "solid", "!important", "url(x)", "é", "*", "."])),
            }
            o.push_str(ws(r));
        }
    }
    fn decls(r: &mut Rng, o: &mut String) {
        for _ in 0..r.below(4) {
            o.push_str(ws(r));
            o.push_str(r.pick(&["color", "width", "--v", "*zoom", "font", "grid-area"]));
            o.push_str(ws(r));
            o.push(':');
            o.push_str(ws(r));
            val(r, o, 2);
            o.push_str(r.pick(&[";", ";", " ;", ""]));
        }
    }
    let mut o = String::new();
    for _ in 0..1 + r.below(4) {
        o.push_str(ws(r));
        match r.below(6) {
            0 => o.push_str(r.pick(&["/*! lic */", "/** lic é */", "/*!*/"])),
            1 => {
                o.push_str(r.pick(&["@media ", "@supports not ", "@media(", "@layer a ", "@container x "]));
                o.push_str(r.pick(&["screen and (max-width: 1px)", "(a:b) and (c : d)", "not all", "only screen , print", "(width >= calc(1px + 2px))"]));
                o.push_str(ws(r));
                o.push('{');
                o.push_str(ws(r));
                sel(r, &mut o);
                o.push('{');
                decls(r, &mut o);
                o.push('}');
                o.push_str(ws(r));
                o.push('}');
            }
            2 => {
                o.push_str(r.pick(&["@import url(\"a b\") screen;", "@charset \"x\" ;", "@font-face{font-family : \"é\" ;src:url(a)}", "@page :first { margin : 1in }"]));
            }
            _ => {
                sel(r, &mut o);
                o.push('{');
                decls(r, &mut o);
                o.push('}');
            }
        }
        o.push_str(ws(r));
    }
    if r.chance(1, 6) {
        // cut or damage
        let v: Vec<char> = o.chars().collect();
        let k = r.below(v.len() + 1);
        o = v[..k].iter().collect();
        if r.chance(1, 2) {
            o.push_str(r.pick(&["}", "]", "[", "\"", "/*", "*/", "\\"]));
            o.extend(&v[k..]);
        }
    }
    o
}

pub fn search(s: &mut Search) {
    s.exhaustive(PIECES, if s.thorough { 5 } else { 4 }, &|x| Case::src(x));
    s.exhaustive(&["a", "\"", "'", "\\", "/", "*", " ", "!", "é"], if s.thorough { 8 } else { 6 }, &|x| Case::src(x));
    s.exhaustive(&["a", " ", "+", "calc", "(", ")", "-", ".b"], if s.thorough { 8 } else { 6 }, &|x| Case::src(&format!("x{{y:{x}}}")));
    s.exhaustive(&["#", ".", "@", ":", "a", " ", "!", "{", "&", "-", "_"], if s.thorough { 6 } else { 5 }, &|x| Case::src(x));
    s.exhaustive(&["\"\\\\\"", "\" \"", "' '", "'\\\\'", "\"\\\"\"", " ", "a"], 6, &|x| Case::src(x));
    s.exhaustive(&["@m", "a", " ", ":", "(", ")", "{", "}", ";"], if s.thorough { 7 } else { 6 }, &|x| Case::src(x));
    s.phase("random token sequences and random style sheets");
    while !s.out_of_time() {
        for _ in 0..200 {
            let t = if s.rng.chance(1, 3) {
                let n = 1 + s.rng.below(14);
                (0..n).map(|_| *s.rng.pick(MORE)).collect()
            } else {
                gen_sheet(&mut s.rng)
            };
            let t = spice(&mut s.rng, &t);
            s.check(Case::src(&t));
        }
        if !s.thorough && !s.within(0.6) {
            break;
        }
    }
}
