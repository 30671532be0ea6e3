//! The JS specification of proofs/js_*.vs, executable, and inputs for it.
use crate::dict::*;
use crate::util::*;
use minifier::js::*;
use std::collections::{HashMap, HashSet};

use minifier::js::ReservedChar as R;

// ================================================================ tokens (js_types.vs, js_text.vs)
fn white(t: &Token) -> bool {
    matches!(t, Token::Char(R::Space | R::Tab | R::Backline))
}
fn idle(t: &Token) -> bool {
    matches!(t, Token::Comment(_)) || white(t)
}
fn semi(t: &Token) -> bool {
    matches!(t, Token::Char(R::SemiColon))
}
fn rch(c: R) -> char {
    use R::*;
    match c {
        Comma => ',', OpenParenthese => '(', CloseParenthese => ')', OpenCurlyBrace => '{', CloseCurlyBrace => '}', OpenBracket => '[', CloseBracket => ']',
        Colon => ':', SemiColon => ';', Dot => '.', Quote => '\'', DoubleQuote => '"', ExclamationMark => '!', QuestionMark => '?', Slash => '/', Modulo => '%',
        Star => '*', Minus => '-', Plus => '+', EqualSign => '=', Backslash => '\\', Space => ' ', Tab => '\t', Backline => '\n', LessThan => '<',
        SuperiorThan => '>', Pipe => '|', Ampersand => '&', BackTick => '`',
    }
}
const KEYWORDS: &[(&str, Keyword)] = {
    use Keyword::*;
    &[
        ("break", Break), ("case", Case), ("catch", Catch), ("const", Const), ("continue", Continue), ("default", Default), ("do", Do), ("else", Else),
        ("false", False), ("finally", Finally), ("function", Function), ("for", For), ("if", If), ("in", In), ("instanceof", InstanceOf), ("let", Let), ("new", New),
        ("null", Null), ("private", Private), ("protected", Protected), ("public", Public), ("return", Return), ("switch", Switch), ("this", This), ("throw", Throw),
        ("true", True), ("try", Try), ("typeof", Typeof), ("static", Static), ("var", Var), ("while", While),
    ]
};
fn ktext(k: Keyword) -> &'static str {
    KEYWORDS.iter().find(|x| x.1 == k).unwrap().0
}
fn ctext(c: Condition) -> &'static str {
    use Condition::*;
    match c {
        And => "&&", Or => "||", DifferentThan => "!=", SuperDifferentThan => "!==", EqualTo => "==", SuperEqualTo => "===", SuperiorThan => ">",
        SuperiorOrEqualTo => ">=", InferiorThan => "<", InferiorOrEqualTo => "<=",
    }
}
fn otext(o: Operation) -> &'static str {
    use Operation::*;
    match o {
        Addition => "+", AdditionEqual => "+=", Subtract => "-", SubtractEqual => "-=", Multiply => "*", MultiplyEqual => "*=", Divide => "/", DivideEqual => "/=",
        Modulo => "%", ModuloEqual => "%=", Equal => "=",
    }
}
fn text(t: &Token) -> String {
    match t {
        Token::Keyword(k) => ktext(*k).into(),
        Token::Char(c) => rch(*c).into(),
        Token::String(s) | Token::Other(s) | Token::FloatingNumber(s) => s.to_string(),
        Token::Comment(s) => {
            if s.contains("*/") {
                format!("//{s}\n")
            } else {
                format!("/*{s}*/")
            }
        }
        Token::License(s) => format!("/*!{s}*/"),
        Token::Regex { regex, is_global, is_interactive } => format!("/{regex}/{}{}", if *is_global { "g" } else { "" }, if *is_interactive { "i" } else { "" }),
        Token::Condition(c) => ctext(*c).into(),
        Token::Operation(o) => otext(*o).into(),
        Token::CreatedVarDecl(s) | Token::CreatedVar(s) => s.clone(),
        Token::Number(n) => n.to_string(),
    }
}

// ================================================================ printing (js_print.vs)
fn word_l(t: &Token) -> bool {
    matches!(t, Token::Keyword(_) | Token::Other(_) | Token::CreatedVar(_) | Token::Number(_) | Token::FloatingNumber(_))
}
fn word_r(t: &Token) -> bool {
    word_l(t) || matches!(t, Token::CreatedVarDecl(_))
}
fn gap(a: &Token, b: &Token) -> bool {
    word_l(a) && word_r(b) || matches!(b, Token::Keyword(Keyword::In | Keyword::InstanceOf)) && !matches!(a, Token::Char(_) | Token::String(_))
}
pub fn printed(v: &[Token]) -> String {
    let mut o = String::new();
    for k in 0..v.len() {
        if k > 0 && gap(&v[k - 1], &v[k]) {
            o.push(' ');
        }
        o.push_str(&text(&v[k]));
    }
    o
}

// ================================================================ cleaning (js_clean.vs)
fn blank_needed(a: &Token, b: &Token) -> bool {
    match a {
        Token::Operation(Operation::Addition) => *b == Token::Operation(Operation::Addition),
        Token::Operation(Operation::Subtract) => *b == Token::Operation(Operation::Subtract),
        Token::Operation(Operation::Divide) => matches!(b, Token::Regex { .. } | Token::License(_) | Token::Comment(_)),
        Token::Number(_) | Token::FloatingNumber(_) => *b == Token::Char(R::Dot),
        Token::Condition(Condition::InferiorThan) => *b == Token::Char(R::ExclamationMark),
        Token::Keyword(_) | Token::Other(_) => *b == Token::Char(R::Backslash),
        _ => false,
    }
}
fn put<'a>(out: &mut Vec<Token<'a>>, t: &Token<'a>, skipped: bool) {
    if skipped && out.last().is_some_and(|l| blank_needed(l, t)) {
        out.push(Token::Char(R::Space));
    }
    out.push(t.clone());
}
fn cl<'a>(v: &[Token<'a>]) -> Vec<Token<'a>> {
    let (mut out, mut sk) = (vec![], false);
    for t in v {
        if idle(t) {
            sk = true;
        } else if semi(t) && out.is_empty() {
            sk = false;
        } else {
            put(&mut out, t, sk);
            sk = false;
        }
    }
    out
}
fn stmt_needed(v: &[Token]) -> bool {
    match v.iter().rev().find(|t| !matches!(t, Token::License(_)) && !idle(t)) {
        Some(Token::Char(R::CloseParenthese | R::Colon)) | Some(Token::Keyword(_)) => true,
        _ => false,
    }
}
fn cle<'a>(v: &[Token<'a>], p: &dyn Fn(&Token<'a>) -> bool) -> Vec<Token<'a>> {
    let (mut out, mut sk, mut i) = (vec![], false, 0);
    while i < v.len() {
        let t = &v[i];
        i += 1;
        if idle(t) && p(t) {
            sk = true;
            continue;
        }
        if semi(t) && out.is_empty() {
            if !p(t) {
                out.push(t.clone());
            }
        } else if semi(t) {
            while i < v.len() && idle(&v[i]) && p(&v[i]) {
                i += 1;
            }
            let keep = stmt_needed(&out) || !p(t);
            if i >= v.len() {
                if keep {
                    out.push(t.clone());
                }
            } else {
                if v[i] != Token::Char(R::CloseCurlyBrace) || keep {
                    out.push(t.clone());
                }
                out.push(v[i].clone());
                i += 1;
            }
        } else {
            put(&mut out, t, sk);
        }
        sk = false;
    }
    out
}

// ================================================================ the tokenizer (js_lex.vs)
fn rsv(c: char) -> bool {
    ",(){}[]:;.'\"!?/%*-+=\\ \t\n\r<>|&`".contains(c)
}
fn eol(c: char) -> bool {
    c == '\n' || c == '\r'
}
fn str_end(s: &[char], mut i: usize, q: char) -> Option<usize> {
    while i < s.len() {
        match s[i] {
            '\\' => i += 2,
            c if c == q => return Some(i),
            _ => i += 1,
        }
    }
    None
}
fn com_end(s: &[char], mut i: usize) -> usize {
    while i < s.len() && !(s[i] == '*' && s.get(i + 1) == Some(&'/')) {
        i += 1;
    }
    i.min(s.len())
}
fn re_end(s: &[char], mut i: usize) -> Option<usize> {
    let mut class = false;
    while i < s.len() {
        match s[i] {
            '\\' => i += 1,
            '[' => class = true,
            ']' => class = false,
            '/' if !class => return Some(i),
            c if eol(c) => return None,
            _ => {}
        }
        i += 1;
    }
    None
}
/// the closing backtick of a template that starts before i; templates nested at most as deep as the stack allows
fn tpl(s: &[char], mut i: usize) -> Option<usize> {
    // None in the stack: a template; Some(count): the braces open in a `${ }`
    let mut st: Vec<Option<i64>> = vec![None];
    while i < s.len() {
        let top = st.last_mut().unwrap();
        match (top, s[i]) {
            (_, '\\') => i += 1,
            (None, '$') if s.get(i + 1) == Some(&'{') => st.push(Some(0)),
            (None, '`') => {
                st.pop();
                if st.is_empty() {
                    return Some(i);
                }
            }
            (None, _) => {}
            (Some(_), q @ ('"' | '\'')) => i = str_end(s, i + 1, q)?,
            (Some(_), '`') => st.push(None),
            (Some(n), '{') => *n += 1,
            (Some(n), '}') => {
                *n -= 1;
                if *n == 0 {
                    st.pop();
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}
fn re_ctx(v: &[Token]) -> bool {
    match v.iter().rev().find(|t| !idle(t) && !matches!(t, Token::License(_))) {
        None => true,
        Some(Token::Char(c)) => ";:,[(!{?|&".contains(rch(*c)),
        Some(Token::Keyword(k)) => !matches!(k, Keyword::False | Keyword::Null | Keyword::This | Keyword::True),
        Some(Token::Operation(_) | Token::Condition(_)) => true,
        _ => false,
    }
}
fn re_at(s: &[char], v: &[Token], a: usize) -> bool {
    re_ctx(v) && a + 1 < s.len() && s[a + 1] != '/' && s[a + 1] != '*' && re_end(s, a + 1).is_some()
}
fn kw(w: &str) -> bool {
    KEYWORDS.iter().any(|k| k.0 == w)
}
fn wordy(t: &Token) -> bool {
    matches!(t, Token::Keyword(_) | Token::Number(_) | Token::FloatingNumber(_) | Token::Other(_))
}
/// the end of `t`, which follows the tokens `v` and starts at `a`
fn tok(s: &[char], v: &[Token], t: &Token, a: usize) -> Option<usize> {
    if a >= s.len() {
        return None;
    }
    let sub = |x: &str, from: usize| {
        let n = x.chars().count();
        (from + n <= s.len() && x.chars().eq(s[from..from + n].iter().copied())).then_some(from + n)
    };
    let when = |b: bool, e: usize| b.then_some(e);
    match v.last() {
        Some(Token::Operation(Operation::Divide)) if s[a] == '/' || s[a] == '*' => return None,
        Some(l) if wordy(l) && wordy(t) => return None,
        _ => {}
    }
    let q = |c| str_end(s, a + 1, c).is_none();
    match t {
        Token::Char(c) => {
            let is = rch(*c) == s[a] || s[a] == '\r' && *c == R::Backline;
            let ok = match c {
                R::Quote => q('\''),
                R::DoubleQuote => q('"'),
                R::BackTick => tpl(s, a + 1).is_none(),
                R::Slash | R::Star | R::Plus | R::Minus | R::EqualSign | R::Modulo | R::LessThan | R::SuperiorThan => false,
                _ => true,
            };
            when(is && ok, a + 1)
        }
        Token::String(x) => {
            let b = match s[a] {
                '`' => tpl(s, a + 1),
                c @ ('"' | '\'') => str_end(s, a + 1, c),
                _ => None,
            }? + 1;
            when(sub(x, a) == Some(b), b)
        }
        Token::Comment(x) => {
            if s[a] != '/' || a + 1 >= s.len() {
                return None;
            }
            if s[a + 1] == '/' {
                let e = (a + 2..s.len()).find(|k| eol(s[*k])).unwrap_or(s.len());
                when(sub(x, a + 2) == Some(e), (e + 1).min(s.len()))
            } else {
                let e = com_end(s, a + 2);
                when(s[a + 1] == '*' && s.get(a + 2) != Some(&'!') && sub(x, a + 2) == Some(e), (e + 2).min(s.len()))
            }
        }
        Token::License(x) => {
            let e = com_end(s, (a + 3).min(s.len()));
            when(sub("/*!", a).is_some() && sub(x, a + 3) == Some(e), (e + 2).min(s.len()))
        }
        Token::Regex { regex, is_global, is_interactive } => {
            if s[a] != '/' || !re_at(s, v, a) {
                return None;
            }
            let e = re_end(s, a + 1)?;
            let mut b = e + 1;
            while b < s.len() && (s[b] == 'i' || s[b] == 'g') {
                b += 1;
            }
            when(sub(regex, a + 1) == Some(e) && *is_global == s[e + 1..b].contains(&'g') && *is_interactive == s[e + 1..b].contains(&'i'), b)
        }
        Token::Operation(o) => {
            if matches!(o, Operation::Divide | Operation::DivideEqual) && re_at(s, v, a) {
                return None;
            }
            sub(otext(*o), a)
        }
        Token::Condition(c) => sub(ctext(*c), a),
        Token::CreatedVarDecl(_) | Token::CreatedVar(_) => None,
        t => {
            let w = text(t);
            let b = sub(&w, a)?;
            let ok = match t {
                Token::Keyword(_) => true,
                Token::FloatingNumber(_) => !kw(&w) && w.parse::<f64>().is_ok(),
                Token::Other(_) => !kw(&w) && w.parse::<f64>().is_err(),
                _ => true,
            };
            let plain = s[a..b].iter().all(|c| !rsv(*c) || *c == '.');
            let open = b == s.len() && matches!(v.last(), Some(Token::Char(R::Quote | R::DoubleQuote | R::BackTick)));
            when(ok && b > a && (plain || open), b)
        }
    }
}
fn walk(src: &str, v: &[Token]) -> Result<(), String> {
    let s: Vec<char> = src.chars().collect();
    let mut a = 0;
    for k in 0..v.len() {
        match tok(&s, &v[..k], &v[k], a) {
            Some(b) if b > a => a = b,
            _ => return Err(format!("tokenize({src:?}): token {k}, {:?}, is not what stands at character {a}", v[k])),
        }
    }
    if a != s.len() {
        return Err(format!("tokenize({src:?}): the tokens end at character {a} of {}", s.len()));
    }
    Ok(())
}

// ================================================================ declarations (jshelp.vs)
fn inline(t: &Token) -> bool {
    idle(t) && *t != Token::Char(R::Backline)
}
fn skip(v: &[Token], mut i: usize, f: fn(&Token) -> bool) -> usize {
    while i < v.len() && f(&v[i]) {
        i += 1;
    }
    i
}
fn decl(v: &[Token], a: usize) -> Option<Option<usize>> {
    if !matches!(v.get(a), Some(Token::Other(_))) {
        return None;
    }
    let e = skip(v, a + 1, inline);
    match v.get(e)? {
        Token::Operation(Operation::Equal) => {
            let c = skip(v, e + 1, idle);
            matches!(v.get(c)?, Token::String(_) | Token::Other(_) | Token::Regex { .. } | Token::Number(_) | Token::FloatingNumber(_)).then_some(Some(c))
        }
        Token::Char(R::Comma | R::SemiColon) => Some(None),
        _ => None,
    }
}
fn var_kw(t: &Token) -> bool {
    matches!(t, Token::Keyword(Keyword::Let | Keyword::Var))
}
fn in_decl(v: &[Token], pos: usize) -> bool {
    let mut j = pos;
    while j > 0 && idle(&v[j - 1]) {
        j -= 1;
    }
    j > 0 && (var_kw(&v[j - 1]) || v[j - 1] == Token::Char(R::Comma))
}
fn found(v: &[Token], pos: usize, r: Option<(usize, Option<usize>)>) -> Result<(), String> {
    if let Some((a, c)) = r {
        if a < pos || decl(v, a) != Some(c) {
            return Err(format!("position {pos}: the answer is ({a}, {c:?}), but there is no such declaration"));
        }
        if !(var_kw(&v[pos]) || matches!(v[pos], Token::Other(_))) {
            return Err(format!("position {pos}: an answer at a token that declares nothing"));
        }
    }
    if pos < v.len() {
        let a = if var_kw(&v[pos]) {
            skip(v, pos + 1, idle)
        } else if matches!(v[pos], Token::Other(_)) && in_decl(v, pos) {
            pos
        } else {
            return Ok(());
        };
        if let Some(c) = decl(v, a) {
            if r != Some((a, c)) {
                return Err(format!("position {pos}: the declaration at {a} (value {c:?}) is not found, but {r:?}"));
            }
        }
    }
    Ok(())
}
/// the elements and the closing bracket of `var name = [..]`; none of its tokens starts another one
fn array(v: &[Token], name: &str) -> Option<(Vec<usize>, usize)> {
    let want = [Token::Other(name), Token::Operation(Operation::Equal), Token::Char(R::OpenBracket)];
    let mut k = 0;
    'next: while k < v.len() {
        k += 1;
        if !var_kw(&v[k - 1]) {
            continue;
        }
        for w in &want {
            k = skip(v, k, idle) + 1;
            if v.get(k - 1) != Some(w) {
                continue 'next;
            }
        }
        let end = (k..v.len()).find(|k| v[*k] == Token::Char(R::CloseBracket))?;
        return Some(((k..end).filter(|k| !idle(&v[*k])).collect(), end));
    }
    None
}

// ================================================================ aggregation
fn is_lit(t: &Token) -> bool {
    matches!(t, Token::String(s) if !s.starts_with('`'))
}
fn content(t: &Token) -> String {
    let s = text(t);
    s[1..s.len() - 1].to_string()
}
/// expanding the references and leaving out the declarations gives the tokens back
fn check_vars(src: &str, v: &[Token], out: &[Token], sep: Option<&Token>) -> Result<bool, String> {
    let bad = |w: String| Err(format!("aggregate_strings({src:?}): {w}: {:?}", printed(out)));
    let Some(n) = out.len().checked_sub(v.len()) else { return bad("tokens are lost".into()) };
    let mut names: HashMap<String, String> = HashMap::new();
    let mut k = 0;
    if k < n && out[0] == Token::Keyword(Keyword::Var) {
        loop {
            k += 1;
            let Some(Token::CreatedVarDecl(d)) = out.get(k) else { return bad(format!("token {k} should declare a variable")) };
            let Some((name, lit)) = d.split_once('=') else { return bad("a declaration without =".into()) };
            if !name.strip_prefix("r_").is_some_and(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric())) {
                return bad(format!("{name:?} is not a name of a created variable"));
            }
            if names.insert(name.into(), lit.into()).is_some() {
                return bad(format!("{name} is declared twice"));
            }
            k += 1;
            match out.get(k) {
                Some(Token::Char(R::Comma)) => {}
                Some(Token::Char(R::SemiColon)) => break,
                _ => return bad(format!("token {k} should end the declarations")),
            }
        }
        k += 1;
    }
    if let Some(s) = sep {
        if out.get(k) != Some(s) {
            return bad("the separation token is missing".into());
        }
        k += 1;
    }
    if k != n {
        return bad(format!("{k} tokens are put in front, {n} expected"));
    }
    // no created name is a name of the source
    for t in v {
        let w = match t {
            Token::CreatedVarDecl(s) | Token::CreatedVar(s) => s.as_str(),
            Token::Other(s) | Token::String(s) => s,
            _ => continue,
        };
        for w in w.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$') {
            if names.contains_key(w) {
                return bad(format!("{w} is a name of the source"));
            }
        }
    }
    for i in 0..v.len() {
        let (a, b) = (&v[i], &out[n + i]);
        if a == b {
            continue;
        }
        let ok = is_lit(a)
            && match b {
                Token::CreatedVar(x) => names.get(x) == Some(&text(a)),
                Token::Other(x) => {
                    x.starts_with("r_")
                        && (0..v.len()).any(|d| {
                            v[d] == Token::Other(x)
                                && decl(v, d) == Some(v.iter().enumerate().position(|(c, t)| c > d && t == a && decl(v, d) == Some(Some(c))))
                                && decl(v, d).flatten().is_some_and(|c| {
                                    c != i && v[c] == *a && matches!(v.get(skip(v, c + 1, idle)), None | Some(Token::Char(R::Comma | R::SemiColon)))
                                })
                        })
                }
                _ => false,
            };
        if !ok {
            return bad(format!("{:?} became {:?}", text(a), text(b)));
        }
    }
    Ok(!names.is_empty() || v.iter().zip(&out[n..]).any(|(a, b)| a != b))
}
fn check_array(src: &str, v: &[Token], out: &[Token], name: &str, sep: Option<&Token>, flt: &dyn Fn(usize) -> bool) -> Result<bool, String> {
    let bad = |w: String| Err(format!("aggregate_strings_into_array({src:?}, {name:?}): {w}: {:?}", printed(out)));
    let Some(n) = out.len().checked_sub(v.len()) else { return bad("tokens are lost".into()) };
    let ar = array(v, name);
    let mut elems: Vec<String> = vec![];
    // where tokens are put in, and the first of them that is an element
    let (at, first, last) = match &ar {
        None if n == 0 => (0, 0, 0),
        None => {
            let tail = if sep.is_some() { 3 } else { 2 };
            if n < 4 || out[0] != Token::CreatedVarDecl(format!("var {name}=")) || out[1] != Token::Char(R::OpenBracket) || out[n - tail] != Token::Char(R::CloseBracket)
                || out[n - tail + 1] != Token::Char(R::SemiColon) || sep.is_some_and(|s| out[n - 1] != *s)
            {
                return bad("the array is not declared in front".into());
            }
            (0, 2, n - tail)
        }
        Some((vals, end)) => {
            let lits = vals.iter().enumerate().all(|(k, p)| if k % 2 == 0 { is_lit(&v[*p]) } else { v[*p] == Token::Char(R::Comma) }) && vals.len() % 2 == usize::from(!vals.is_empty());
            if !lits && out != v {
                return bad("the array doesn't hold strings only".into());
            }
            if lits {
                elems = vals.iter().step_by(2).map(|p| content(&v[*p])).collect();
            }
            let f = if !vals.is_empty() && n > 0 {
                if out[*end] != Token::Char(R::Comma) {
                    return bad("no comma after the last element".into());
                }
                end + 1
            } else {
                *end
            };
            (*end, f, end + n)
        }
    };
    for k in first..last {
        if (k - first) % 2 == 1 {
            if out[k] != Token::Char(R::Comma) {
                return bad(format!("token {k} should be a comma"));
            }
        } else {
            match &out[k] {
                Token::CreatedVar(s) if s.len() >= 2 && (s.starts_with('"') || s.starts_with('\'')) => elems.push(s[1..s.len() - 1].to_string()),
                _ => return bad(format!("token {k} should be a string of the array")),
            }
        }
    }
    if last > first && (last - first) % 2 == 0 {
        return bad("the array ends with a comma".into());
    }
    let own: HashSet<usize> = ar.iter().flat_map(|a| a.0.iter().copied()).collect();
    let mut some = n > 0;
    for i in 0..v.len() {
        let (a, b) = (&v[i], &out[if i < at { i } else { i + n }]);
        if a == b {
            continue;
        }
        some = true;
        let ok = is_lit(a) && !own.contains(&i) && flt(i) && (0..elems.len()).any(|k| *b == Token::CreatedVar(format!("{name}[{k}]")) && elems[k] == content(a));
        if !ok {
            return bad(format!("{:?} became {:?}", text(a), text(b)));
        }
    }
    // the elements that were put in are the text of a literal of the source, quotes included
    for t in &out[first..last] {
        if let Token::CreatedVar(s) = t {
            let lit = v.iter().any(|x| is_lit(x) && content(x) == s[1..s.len() - 1] && (text(x) == *s || s.starts_with('"') && !content(x).contains('"')));
            if !lit {
                return bad(format!("{s} is no string of the source"));
            }
        }
    }
    Ok(some)
}

// ================================================================ cases
const TABLE: &[(char, Token<'static>)] = &[
    ('r', Token::Keyword(Keyword::Return)), ('i', Token::Keyword(Keyword::In)), ('I', Token::Keyword(Keyword::InstanceOf)), ('v', Token::Keyword(Keyword::Var)),
    ('l', Token::Keyword(Keyword::Let)), ('e', Token::Keyword(Keyword::Else)), ('t', Token::Keyword(Keyword::True)), ('a', Token::Other("a")), ('é', Token::Other("é")),
    ('1', Token::Number(1)), ('0', Token::Number(usize::MAX)), ('f', Token::FloatingNumber("1.5")), ('"', Token::String("\"x y\"")), ('\'', Token::String("'q'")),
    ('c', Token::Comment(" c ")), ('C', Token::Comment(" a */ b")), ('L', Token::License("l")),
    ('R', Token::Regex { regex: "x", is_global: true, is_interactive: false }), ('Q', Token::Regex { regex: "y[/]", is_global: false, is_interactive: true }),
    ('+', Token::Operation(Operation::Addition)), ('-', Token::Operation(Operation::Subtract)), ('/', Token::Operation(Operation::Divide)),
    ('=', Token::Operation(Operation::Equal)), ('*', Token::Operation(Operation::Multiply)), ('<', Token::Condition(Condition::InferiorThan)), ('&', Token::Condition(Condition::And)),
    ('!', Token::Char(R::ExclamationMark)), ('.', Token::Char(R::Dot)), (';', Token::Char(R::SemiColon)), (',', Token::Char(R::Comma)), ('}', Token::Char(R::CloseCurlyBrace)),
    ('{', Token::Char(R::OpenCurlyBrace)), (')', Token::Char(R::CloseParenthese)), ('(', Token::Char(R::OpenParenthese)), (':', Token::Char(R::Colon)), (' ', Token::Char(R::Space)),
    ('\t', Token::Char(R::Tab)), ('\n', Token::Char(R::Backline)), ('\\', Token::Char(R::Backslash)), ('[', Token::Char(R::OpenBracket)), (']', Token::Char(R::CloseBracket)),
];
fn created(c: char) -> Option<Token<'static>> {
    match c {
        'V' => Some(Token::CreatedVar("r_aa".into())),
        'D' => Some(Token::CreatedVarDecl("r_ba=\"x\"".into())),
        c => TABLE.iter().find(|t| t.0 == c).map(|t| t.1.clone()),
    }
}
/// the token list of a case: made from its text, or from one character per token
fn tokens(c: &Case) -> Option<Tokens<'_>> {
    if c.0.iter().any(|f| f.0 == "src_toks") {
        return Some(Tokens(c.get("src_toks").chars().filter_map(created).collect()));
    }
    simple_minify(c.get("src")).ok()
}
fn pred(n: usize) -> impl Fn(&Token) -> bool {
    move |t: &Token| match n {
        0 => true,
        1 => *t != Token::Char(R::Backline),
        2 => !matches!(t, Token::Comment(_)),
        3 => *t != Token::Char(R::SemiColon),
        4 => false,
        5 => *t != Token::Char(R::Space) && *t != Token::Char(R::SemiColon),
        _ => matches!(t, Token::Comment(_)),
    }
}
const PREDS: usize = 7;

fn same(what: &str, got: &[Token], want: &[Token]) -> Result<(), String> {
    if got != want {
        return Err(format!("{what}: gives {:?}, should be {:?}", got, want));
    }
    Ok(())
}
fn case_s01(c: &Case) -> Result<bool, String> {
    let src = c.get("src").to_string();
    let f = move || -> Result<bool, String> {
        let ticks = src.chars().filter(|c| *c == '`').count();
        let r = catch(|| (simple_minify(&src).is_ok(), minify(&src).map(|m| m.to_string().len())));
        match r {
            Err(p) => Err(format!("minify of {:?}: {p}", cut(&src))),
            Ok((a, b)) if a != b.is_ok() => Err(format!("simple_minify and minify disagree on {:?}", cut(&src))),
            Ok((_, Err(e))) if ticks <= 1000 => Err(format!("minify({:?}) = Err({e:?})", cut(&src))),
            _ => Ok(true),
        }
    };
    if c.get("src").len() > 3000 {
        // the stack of a thread
        std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().map_err(|_| "panic".to_string())?
    } else {
        f()
    }
}
fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}
fn case_s02(c: &Case) -> Result<bool, String> {
    let Ok(v) = simple_minify(c.get("src")) else { return Ok(false) };
    walk(c.get("src"), &v.0)?;
    Ok(v.len() > 1)
}
fn case_s03(c: &Case) -> Result<bool, String> {
    let Some(v) = tokens(c) else { return Ok(false) };
    let get = || Tokens(v.0.clone());
    let want = cl(&v);
    let name = format!("of {:?}", printed(&v));
    same(&format!("clean_tokens {name}"), &clean_tokens(get()), &want)?;
    for n in 0..PREDS {
        let p = pred(n);
        same(&format!("clean_tokens_except {name}, predicate {n}"), &clean_tokens_except(get(), &p), &cle(&v, &p))?;
        for k in 0..v.len() {
            let next = v.get(k + 1);
            let plain = !(idle(&v[k]) || semi(&v[k]) && next == Some(&Token::Char(R::CloseCurlyBrace)));
            if clean_token(&v[k], &next) != plain {
                return Err(format!("clean_token({:?}, {next:?}) is {}", v[k], !plain));
            }
            let want = plain || !p(&v[k]);
            if clean_token_except(&v[k], &next, &p) != want {
                return Err(format!("clean_token_except({:?}, {next:?}), predicate {n}, is {}", v[k], !want));
            }
        }
    }
    Ok(want.len() != v.len())
}
fn case_s04(c: &Case) -> Result<bool, String> {
    let Some(v) = tokens(c) else { return Ok(false) };
    let got = v.to_string();
    if got != printed(&v) {
        return Err(format!("the tokens {:?} are printed as {got:?}, should be {:?}", v.0, printed(&v)));
    }
    if c.0.iter().any(|f| f.0 == "src") {
        // what is printed after cleaning is the text of the tokens, and what stood apart stays so
        let src = c.get("src");
        if let Ok(m) = minify(src) {
            let want = printed(&cl(&v));
            if m.to_string() != want {
                return Err(format!("minify({src:?}) = {:?}, should be {want:?}", m.to_string()));
            }
        }
        for n in 0..PREDS {
            let p = pred(n);
            let w = clean_tokens_except(Tokens(v.0.clone()), &p);
            if w.to_string() != printed(&w) {
                return Err(format!("the tokens {:?} are printed as {:?}", w.0, w.to_string()));
            }
        }
    }
    for w in [clean_tokens(Tokens(v.0.clone())), clean_tokens_except(Tokens(v.0.clone()), pred(1)), clean_tokens_except(Tokens(v.0.clone()), pred(0))] {
        // no `+ +` becomes `++`
        for t in [Token::Operation(Operation::Addition), Token::Operation(Operation::Subtract)] {
            let pairs = |x: &[Token]| x.windows(2).filter(|p| p[0] == t && p[1] == t).count();
            if pairs(&w) > pairs(&v) {
                return Err(format!("cleaning {:?} joins two {t:?}: {:?}", printed(&v), w.to_string()));
            }
        }
    }
    Ok(v.len() > 1)
}
fn case_s05(c: &Case) -> Result<bool, String> {
    let Some(t) = tokens(c) else { return Ok(false) };
    let v = if c.num("clean") == 1 { clean_tokens(t) } else { t };
    let get = || Tokens(v.0.clone());
    let src = printed(&v);
    let sep = Token::Char(R::Backline);
    let mut some = check_vars(&src, &v, &aggregate_strings(get()), None)?;
    check_vars(&src, &v, &aggregate_strings_with_separation(get(), sep.clone()), Some(&sep))?;
    // again, on what it gave
    let once = aggregate_strings(get());
    check_vars(&src, &once.0.clone(), &aggregate_strings(once), None)?;
    let all = |_: usize| true;
    some |= check_array(&src, &v, &aggregate_strings_into_array(get(), "R"), "R", None, &all)?;
    check_array(&src, &v, &aggregate_strings_into_array_with_separation(get(), "R", sep.clone()), "R", Some(&sep), &all)?;
    check_array(&src, &v, &aggregate_strings_into_array(get(), "arr"), "arr", None, &all)?;
    let n = c.num("flt") + 2;
    let flt = |p: usize| p % n != 0;
    check_array(&src, &v, &aggregate_strings_into_array_filter(get(), "R", |_, p| flt(p)), "R", None, &flt)?;
    check_array(&src, &v, &aggregate_strings_into_array_with_separation_filter(get(), "R", sep.clone(), |_, p| flt(p)), "R", Some(&sep), &flt)?;
    let never = |_: usize| false;
    check_array(&src, &v, &aggregate_strings_into_array_filter(get(), "R", |_, _| false), "R", None, &never)?;
    Ok(some)
}
fn case_s06(c: &Case) -> Result<bool, String> {
    let n = c.num("n");
    let mut src = String::from("x=[");
    for k in 0..n {
        let s = format!("\"{}{k}\",", "a".repeat(40));
        src.push_str(&s);
        src.push_str(&s);
    }
    src.push_str("];");
    let out = aggregate_strings(simple_minify(&src).map_err(|e| e.to_string())?);
    let mut names = HashSet::new();
    for t in out.iter() {
        if let Token::CreatedVarDecl(d) = t {
            let name = d.split('=').next().unwrap();
            let ok = name.strip_prefix("r_").is_some_and(|x| !x.is_empty() && x.chars().all(|c| c.is_ascii_alphanumeric()));
            if !ok {
                return Err(format!("{n} strings: the name {name:?}"));
            }
            if !names.insert(name.to_string()) {
                return Err(format!("{n} strings: the name {name:?} is given twice"));
            }
        }
    }
    if names.len() != n {
        return Err(format!("{n} strings, {} names", names.len()));
    }
    Ok(n > 1)
}
fn case_s07(c: &Case) -> Result<bool, String> {
    let Some(v) = tokens(c) else { return Ok(false) };
    let mut some = false;
    for pos in 0..v.len() + 2 {
        let r = get_variable_name_and_value_positions(&v, pos);
        some |= r.is_some();
        found(&v, pos, r).map_err(|e| format!("get_variable_name_and_value_positions on {:?}: {e}", printed(&v)))?;
    }
    for n in 0..4 {
        let repl = |t: &Token<'_>| -> Option<Token<'static>> {
            match (n, t) {
                (0, Token::Keyword(Keyword::Var)) => Some(Token::Other("N")),
                (0, Token::Number(n)) => Some(Token::Number(n / 2)),
                (0, Token::String(_)) => Some(Token::Keyword(Keyword::Null)),
                (1, t) if idle(t) => Some(Token::Char(R::Comma)),
                (1, Token::License(_) | Token::Regex { .. } | Token::CreatedVar(_)) => Some(Token::Comment("c")),
                (2, Token::Comment(_)) | (2, Token::Condition(_)) => None,
                (2, _) => Some(Token::FloatingNumber("1.5")),
                _ => None,
            }
        };
        let want: Vec<Token> = v.iter().map(|t| repl(t).unwrap_or(t.clone())).collect();
        same("replace_tokens_with", &replace_tokens_with(Tokens(v.0.clone()), repl), &want)?;
        let one: Vec<Token> = v.iter().map(|t| replace_token_with(t.clone(), &repl)).collect();
        same("replace_token_with", &one, &want)?;
    }
    // the array finder is seen through what the array's strings replace
    for name in ["R", "a"] {
        let Some((vals, _)) = array(&v, name) else { continue };
        let lits = vals.iter().enumerate().all(|(k, p)| if k % 2 == 0 { is_lit(&v[*p]) } else { v[*p] == Token::Char(R::Comma) }) && vals.len() % 2 == 1;
        let mut w = v.0.clone();
        w.push(Token::Char(R::SemiColon));
        w.push(if lits { v[vals[vals.len() / 2 / 2 * 2]].clone() } else { Token::String("\"no element\"") });
        let out = aggregate_strings_into_array(Tokens(w.clone()), name);
        let src = printed(&w);
        check_array(&src, &w, &out, name, None, &|_| true)?;
        if lits && matches!(out.last(), Some(Token::String(_))) {
            return Err(format!("aggregate_strings_into_array({src:?}, {name:?}): the element is not found: {:?}", out.to_string()));
        }
        some |= lits;
    }
    Ok(some)
}
pub fn case(prop: &str, c: &Case) -> Result<bool, String> {
    match prop {
        "S01" => case_s01(c),
        "S02" => case_s02(c),
        "S03" => case_s03(c),
        "S04" => case_s04(c),
        "S05" => case_s05(c),
        "S06" => case_s06(c),
        _ => case_s07(c),
    }
}

// ================================================================ inputs
const PIECES: &[&str] = &[
    "a", " ", "\n", "/", "*", "\"", "`", "${", "}", "\\", "+", "-", "1", ".", "=", ";", "(", ")", "[", "]", "in", "var", "/*", "//",
];
pub const MORE: &[&str] = &[
    "a", "b", "é", "日", "𝄞", "\u{2028}", "\u{a0}", " ", " ", " ", "\n", "\n", "\t", "\r", "\r\n", ";", ";", ",", "(", ")", "{", "}", "[", "]", ":", ".", "..", "...", "!", "?", "?.", "=", "==", "===",
    "!=", "!==", "<", ">", "<=", ">=", "<!--", "-->", "=>", "+", "++", "+=", "-", "--", "-=", "*", "**", "*=", "/", "/=", "%", "%=", "|", "||", "&", "&&", "^", "~", "@", "#", "$", "_",
    "var", "let", "const", "function", "return", "if", "else", "for", "while", "in", "instanceof", "new", "null", "this", "true", "false", "typeof", "case", "static", "do",
    "0", "1", "12", "1.", "1.5", ".5", "010", "1e5", "1e+5", "0x1F", "18446744073709551615", "18446744073709551616", "1n", "1_000", "NaN", "inf", "infinity", "00", "+1", "1..toString()", "1.a",
    "\"x\"", "'y'", "\"a\\\"b\"", "'\\\\'", "\"\"", "\"é\"", "`t`", "`a${b}c`", "`${`x`}`", "`${\"`\"}`", "`${{a:1}}`", "`\\``", "`${'}'}`", "\"", "'", "`", "${", "\\", "\\u0061", "\\\n",
    "/x/", "/x/g", "/a b/gi", "/[/]/", "/\\//i", "/[\\]/]/", "/x/ig.test(a)", "// c\n", "//", "// */\n", "/* c */", "/*", "*/", "/**/", "/*!l*/", "/*!", "/*!*/", "/***/", "/*é*/", "//é\r", "x/y/z",
    "r_aa", "r_ba", "R", "R[0]", "var r_aa=\"xx\"", "\"a long string\"", "'a long string'", "\"other long one\"", "\"it's \\\"q\\\"\"", "'say \"hi\" you'", "\"use strict\"",
];
pub fn gen_program(r: &mut Rng) -> String {
    fn ws(r: &mut Rng) -> &'static str {
        r.pick(&["", "", " ", " ", "\n", "  ", "\t", "/* c */", " /*é*/ ", "// x\n", "\r\n", "/*! l */", "\n\n"])
    }
    fn atom(r: &mut Rng, o: &mut String) {
        o.push_str(r.pick(&[
            "a", "b1", "é", "x", "_y", "$z", "this", "null", "true", "0", "1", "42", "1.5", "010", "1e3", "'s'", "\"t u\"", "`k${a}`", "`a  b`", "/re/g", "/[/]x/", "\"a long string\"", "'a long string'",
            "\"another long one\"", "r_aa", "r_ba", "R[0]", "function", "\\u0061", "\"é é é é é é\"", "'q\"q\"q q q q'", "[]", "{}", "1.", ".5",
        ]));
    }
    fn expr(r: &mut Rng, o: &mut String, d: usize) {
        o.push_str(ws(r));
        match r.below(7) {
            0 if d > 0 => {
                o.push('(');
                expr(r, o, d - 1);
                o.push(')');
            }
            1 if d > 0 => {
                o.push('[');
                expr(r, o, d - 1);
                o.push_str(r.pick(&[",", ", ", " ,"]));
                expr(r, o, d - 1);
                o.push(']');
            }
            2 if d > 0 => {
                o.push_str(r.pick(&["typeof ", "!", "-", "+", "- ", "+ ", "--", "++", "new ", "{a: "]));
                expr(r, o, d - 1);
            }
            _ => atom(r, o),
        }
        o.push_str(ws(r));
        if d > 0 && r.chance(1, 2) {
            o.push_str(r.pick(&["+", "-", "+ +", "- -", "*", "/", "%", "=", "==", "===", "!=", "<", "<=", ">", "&&", "||", " in ", " instanceof ", ".", "?", ":", "+=", "<!", "=>", "/ /", "&", "|"]));
            expr(r, o, d - 1);
        }
    }
    let mut o = String::new();
    for _ in 0..1 + r.below(5) {
        o.push_str(ws(r));
        match r.below(9) {
            0 => {
                o.push_str(r.pick(&["var ", "let ", "var\n", "let/**/", "const ", "var  "]));
                for k in 0..1 + r.below(3) {
                    if k > 0 {
                        o.push_str(r.pick(&[",", ", ", ",\n", " , "]));
                    }
                    o.push_str(r.pick(&["a", "r_aa", "R", "r_ba", "é", "x", "b"]));
                    o.push_str(ws(r));
                    if r.chance(3, 4) {
                        o.push('=');
                        expr(r, &mut o, 1);
                    }
                }
            }
            1 => {
                o.push_str(r.pick(&["var R=[", "let R = [ ", "var arr=[", "var /*x*/ R = ["]));
                for k in 0..r.below(4) {
                    if k > 0 {
                        o.push_str(r.pick(&[",", ", ", "\n,"]));
                    }
                    o.push_str(r.pick(&["\"a long string\"", "'x'", "\"zz\"", "1", "a", "\"another long one\"", "`t`", "\"d\\\"\""]));
                }
                o.push_str(r.pick(&["]", "]", "", ",]"]));
            }
            2 => {
                o.push_str(r.pick(&["if (", "while(", "for (var i in ", "return ", "throw ", "case "]));
                expr(r, &mut o, 1);
                o.push_str(r.pick(&[")", ") {", ");", "", ":"]));
            }
            3 => o.push_str(r.pick(&["}", "{", "; }", ";;", "};", "else;", "a:;", ") ;", ";\n}"])),
            4 => {
                let s = *r.pick(&["\"a long string\"", "'a long string'", "\"another long one\"", "\"shortt\"", "\"é日é日é\"", "'with \"quotes\" x'"]);
                for _ in 0..1 + r.below(6) {
                    o.push_str(s);
                    o.push_str(r.pick(&[",", " , ", "+", ";", "\n"]));
                }
            }
            _ => expr(r, &mut o, 3),
        }
        o.push_str(r.pick(&[";", ";", "\n", "; ", "", ","]));
    }
    if r.chance(1, 6) {
        let v: Vec<char> = o.chars().collect();
        let k = r.below(v.len() + 1);
        o = v[..k].iter().collect();
        if r.chance(1, 2) {
            o.push_str(r.pick(&["\"", "'", "`", "/*", "//", "\\", "`${", "/", "}"]));
            o.extend(&v[k..]);
        }
    }
    o
}
fn random(s: &mut Search, mk: &dyn Fn(&mut Rng, &str) -> Case) {
    s.phase("random token sequences and random programs");
    while !s.out_of_time() {
        for _ in 0..100 {
            let t = if s.rng.chance(1, 3) {
                let n = 1 + s.rng.below(12);
                (0..n).map(|_| *s.rng.pick(MORE)).collect()
            } else {
                gen_program(&mut s.rng)
            };
            let t = spice(&mut s.rng, &t);
            let c = mk(&mut s.rng, &t);
            s.check(c);
        }
        if !s.thorough && !s.within(0.6) {
            break;
        }
    }
}
fn token_lists(s: &mut Search, small: &str, n: usize) {
    let a: Vec<String> = small.chars().map(|c| c.to_string()).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    s.exhaustive(&a, n, &|x| Case(vec![("src_toks".into(), x.into())]));
}
fn all_tokens() -> String {
    TABLE.iter().map(|t| t.0).chain("VD".chars()).collect()
}
pub fn search(prop: &str, s: &mut Search) {
    let t = s.thorough;
    match prop {
        "S01" | "S02" => {
            s.phase("deeply nested templates");
            for n in [2, 999, 1000, 1001, 1002, 5000, 100_000] {
                for (a, b) in [("`${", ""), ("`${", "}`"), ("`${{", "}}`"), ("`", ""), ("${`", "")] {
                    if prop == "S01" || n < 1000 {
                        s.check(Case::src(&format!("{}{}", a.repeat(n), b.repeat(n))));
                    }
                }
            }
            for n in [10, 500, 900, 2000] {
                for (a, m, b) in [("{", "`a`", "}"), ("'x'", "`a`", ""), ("\"`\"", "`a`", ""), ("`a`", "", ""), ("\\`", "`a`", ""), ("{}", "`a`", ""), ("${", "`a`", "}")] {
                    s.check(Case::src(&format!("`${{{}{m}{}}}`", a.repeat(n), b.repeat(n))));
                    s.check(Case::src(&format!("`{}${{{m}}}{}`", a.repeat(n), b.repeat(n))));
                }
            }
            s.exhaustive(&["`", "${", "}", "{", "\"", "'", "\\", "a", "é"], if t { 7 } else { 5 }, &|x| Case::src(x));
            s.exhaustive(&["/", "*", "!", "\n", "a", " ", "\\", "é", "[", "]", "\r"], if t { 6 } else { 5 }, &|x| Case::src(x));
            s.exhaustive(PIECES, if t { 4 } else { 3 }, &|x| Case::src(x));
            s.exhaustive(&["/", "[", "]", "g", "i", "\\", "=", "(", "a", "}", "é"], if t { 6 } else { 4 }, &|x| Case::src(&format!("={x}/")));
            s.exhaustive(&["1", ".", "0", "e", "+", "-", "a", ";", "é", " "], if t { 6 } else { 5 }, &|x| Case::src(x));
            s.exhaustive(&["=", "!", "<", ">", "+", "-", "*", "/", "%", "|", "&", "a"], if t { 5 } else { 4 }, &|x| Case::src(x));
            s.exhaustive(&["+", "1", "\"", "a", "0", ".", "'"], 5, &|x| Case::src(&format!("\"{x}")));
            s.phase("a word, a separator and a word");
            for (w, _) in KEYWORDS {
                for q in ["", " ", "\"", "/x/ ", ".", "1", "é", "x"] {
                    for (z, _) in KEYWORDS {
                        s.check(Case::src(&format!("{w}{q}{z}")));
                    }
                    s.check(Case::src(&format!("{w} {q}/x/")));
                    s.check(Case::src(&format!("{q}{w}/x/g")));
                }
            }
            random(s, &|_, x| Case::src(x));
        }
        "S03" => {
            token_lists(s, "a;} c\nL):+-/R", if t { 5 } else { 4 });
            token_lists(s, &all_tokens(), if t { 3 } else { 2 });
            token_lists(s, "; }c)a", if t { 8 } else { 6 });
            random(s, &|_, x| Case::src(x));
        }
        "S04" => {
            token_lists(s, &all_tokens(), 3);
            token_lists(s, "+- c/R.1<!\\aL", if t { 5 } else { 4 });
            s.exhaustive(&["+", "-", " ", "a", "/*c*/", "\n", "1", "/", "<", "!"], if t { 6 } else { 5 }, &|x| Case::src(x));
            random(s, &|_, x| Case::src(x));
        }
        "S05" => {
            s.phase("declarations before repeated strings");
            let lit = ["\"a long string of words\"", "'a long string of words'", "\"say: \\\"long words here\\\"\"", "'say: \"long words here\"'", "`a long template here`"];
            for pre in [
                "", "var R=[];", "var R=[\"a long string of words\"];", "var R = ['zz', \"b\"];", "var R=[1];", "var R=[\"q\",];", "var R=[\"q\"", "let R=[`x`];", "R=[];",
                "var r_aa=\"a long string of words\";", "var r_aa = 'a long string of words' + x;", "let r_ba=\"a long string of words\",r_ca='say: \"long words here\"';", "var r_aa=1;",
                "r_aa=3;", "function f(r_aa){}", "var x='r_aa';", "var r_é=\"a long string of words\"\n;", "var r_aa=\"a long string of words\"", "var x=1,r_=`a long template here`;",
                "var R=['a long string of words',\"a long string of words\"];", "var R=[\"say: \\\"long words here\\\"\"],a;", "var a=1,R=['z'];", "`${r_aa}`;", "var R=[[]];",
            ] {
                for a in lit {
                    for b in lit {
                        for k in 0..if t { 5 } else { 3 } {
                            for clean in 0..2 {
                                s.check(Case::src(&format!("{pre}f({},{});", vec![a; k + 1].join(" , "), vec![b; k + 2].join(","))).with("clean", clean).with("flt", k));
                            }
                        }
                    }
                }
            }
            s.phase("many strings, names and elements");
            for n in [1, 2, 3, 9, 10, 11, 12, 13, 24, 70, 101, if t { 1100 } else { 120 }] {
                for (k, pre) in [
                    "", "var R=['one','one',\"one\"];", "var R=['one','two','one','three'];f('three');", "var Rest=['one'];f('one','three');", "var xR=['one'],arr=[\"three\"];f('one','three');",
                    "let R=['one'];let R=['two'];f('two','one');", "var arrR=['one','two'];f('one','two');", "var R =[ 'é' ]/**/;f('é',\"é\");", "var R=['a long string 0','a long string 11'];",
                    "r_aa.r_ba(r_ca,r_da);", "var r_ba=1,r_ca=2,r_da='a long string 1';r_ea();", "var r_ab=1;var r_bb=1;let r_ac;'r_da r_ea';", "var r_aa='a long string 0';var r_aa='a long string 1';",
                ].iter().enumerate() {
                    let mut src = pre.to_string();
                    for i in 0..n {
                        let i = if k % 2 == 0 { i } else { n - i };
                        src.push_str(&format!("f('a long string {i}','a long string {i}','a long string {i} ',' a long string {i}');"));
                    }
                    for i in 0..n.min(40) {
                        src.push_str(&format!("f('a long string {i}',\"a long string {i}\",'a long string {i} ',' a long string {i}');"));
                    }
                    s.check(Case::src(&src).with("clean", k % 2).with("flt", n % 4));
                }
            }
            random(s, &|r, x| {
                let l = ["'one'", "'a long string 1'", "\"a long string of words\"", "'other words, also long'", "\"éééééééééééé\"", "'with \"quotes\" and words'"];
                let mut x = x.to_string();
                for _ in 0..r.below(14) {
                    x.push_str(*r.pick(&[";", ",", ";f(", " + ", ";var r_aa=", ";var r_ba = ", ";let R=[", "]", "R[", ";var Rx=[", ",", ",", ",", "],r_ca=", ";r_aa(r_ba,", ":"]));
                    x.push_str(*r.pick(&l));
                }
                Case::src(&x).with("clean", r.below(2)).with("flt", r.below(4))
            });
        }
        "S06" => {
            s.phase("aggregating n distinct strings, each used twice");
            for n in [1, 2, 25, 26, 27, 61, 62, 63, 64, 124, 125, 1000, 3843, 3844, 3845, 3906, 3907, 3908, 10_000, 20_000] {
                s.check(Case(vec![("n".into(), n.to_string())]));
            }
            if t {
                for n in [242_171, 242_172, 242_235, 260_000] {
                    s.check(Case(vec![("n".into(), n.to_string())]));
                }
            }
        }
        _ => {
            token_lists(s, "vla=1,; \nc\"", if t { 6 } else { 5 });
            token_lists(s, &all_tokens(), 2);
            let a = ["\"", "'", " ", "c", ",", "]", "1", "\n", "["];
            s.exhaustive(&a, if t { 6 } else { 5 }, &|x| Case(vec![("src_toks".into(), format!("va=[{x}"))]));
            s.exhaustive(&["v", "l", "a", " ", "c", "=", "[", "\"", "]", ";"], if t { 7 } else { 5 }, &|x| Case(vec![("src_toks".into(), x.into())]));
            random(s, &|_, x| Case::src(x));
        }
    }
}
