//@ include prelude.vs
//@ include text.vs
pub mod spec {
use vstd::prelude::*;
use super::base::*;

// ================================================================ the CSS tokens of a text
pub enum T {
    /// identifier, number, keyword, class or hash selector, ... or one escaped character
    Word(Seq<char>),
    /// `:name`, where a selector may stand
    Pseudo(Seq<char>),
    /// `@name`, where a rule may stand
    At(Seq<char>),
    /// string literal, quotes included
    Str(Seq<char>),
    /// `/*! ... */` or `/** ... */`
    Lic(Seq<char>),
    /// `~=`, `|=`, ...
    SelOp(char),
    /// one of the other characters with a meaning of its own
    Res(char),
    /// an arithmetic operator (no text has one)
    Op(char),
}
/// a token, and whether white space or a comment follows it
pub struct E { pub t: T, pub gap: bool }

pub open spec fn blank(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn reserved(c: char) -> bool {
    blank(c) || c == '\'' || c == '"' || c == ',' || c == '(' || c == ')' || c == '{' || c == '}' || c == '[' || c == ']' || c == ':'
    || c == ';' || c == '/' || c == '*' || c == '+' || c == '=' || c == '>' || c == '|' || c == '~' || c == '$' || c == '^' || c == '\\'
}
/// white space has no meaning after `,` `{` `:` ...
pub open spec fn sensitive(t: T) -> bool {
    match t { T::Res(c) => c == '/' || c == '*' || c == '+' || c == ')' || c == ']', _ => true }
}
pub open spec fn one(t: T) -> E { E { t, gap: false } }
/// white space or a comment follows the last token
pub open spec fn mark(a: Seq<E>) -> Seq<E> {
    if a.len() == 0 { a } else { a.drop_last().push(E { t: a.last().t, gap: true }) }
}
pub open spec fn ends_in(a: Seq<E>, t: T) -> bool { a.len() > 0 && a.last() == one(t) }
/// a selector or a rule may stand here
pub open spec fn sel(depth: int, media: bool, attr: bool) -> bool { !attr && ((depth == 0 && !media) || (depth == 1 && media)) }
/// the word s[a..b], if there is one
pub open spec fn word(s: Seq<char>, a: int, b: int, acc: Seq<E>, sel: bool) -> Seq<E> {
    let x = s.subrange(a, b);
    if x.len() == 0 { acc }
    else if sel && ends_in(acc, T::Res(':')) && s[a - 1] == ':' { acc.drop_last().push(one(T::Pseudo(x))) }
    else if sel && x[0] == '@' && x.len() > 1 && !ends_in(acc, T::Res(':')) { acc.push(one(T::At(x))) }
    else { acc.push(one(T::Word(x))) }
}
/// the position of the quote that ends a string
pub open spec fn str_end(s: Seq<char>, j: int, q: char) -> Option<int> decreases s.len() - j {
    if j < 0 || j >= s.len() { None } else if s[j] == '\\' { if j + 1 >= s.len() { None } else { str_end(s, j + 2, q) } } else if s[j] == q { Some(j) } else { str_end(s, j + 1, q) }
}
/// the position of the slash that ends a comment
pub open spec fn com_end(s: Seq<char>, j: int) -> Option<int> decreases s.len() - j {
    if j < 1 || j >= s.len() { None } else if s[j] == '/' && s[j - 1] == '*' { Some(j) } else { com_end(s, j + 1) }
}
/// is the comment that starts at i a license?
pub open spec fn license(s: Seq<char>, i: int) -> bool {
    i + 2 < s.len() && (s[i + 2] == '!' || (s[i + 2] == '*' && !(i + 3 < s.len() && s[i + 3] == '/')))
}
pub open spec fn is_at(t: T) -> bool { t is At }
pub open spec fn selop(a: Seq<E>) -> bool {
    ends_in(a, T::Res('~')) || ends_in(a, T::Res('|')) || ends_in(a, T::Res('$')) || ends_in(a, T::Res('^')) || ends_in(a, T::Res('*'))
}
/// The tokens of a text; None: malformed. `st` is where the current word starts, `i` the position,
/// `acc` the tokens so far, `depth` the number of open blocks, `media` inside an at-rule, `attr`
/// inside `[ ]`.
#[verifier::opaque]
pub open spec fn css(s: Seq<char>, st: int, i: int, acc: Seq<E>, depth: int, media: bool, attr: bool) -> Option<Seq<E>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Some(word(s, st, s.len() as int, acc, sel(depth, media, attr))) }
    else if !reserved(s[i]) { css(s, st, i + 1, acc, depth, media, attr) }
    else {
        let c = s[i];
        let a = word(s, st, i, acc, sel(depth, media, attr));
        let m = media || (a.len() > 0 && a.last().t is At && !a.last().gap);
        let j = i + 1;
        if c == '\\' {
            if j < s.len() { css(s, j + 1, j + 1, a.push(one(T::Res('\\'))).push(one(T::Word(seq![s[j]]))), depth, m, attr) }
            else { css(s, j, j, a.push(one(T::Res('\\'))), depth, m, attr) }
        } else if c == '"' || c == '\'' {
            match str_end(s, j, c) {
                None => None,
                Some(k) => if k < j || k >= s.len() { None } else { css(s, k + 1, k + 1, a.push(one(T::Str(s.subrange(i, k + 1)))), depth, m, attr) },
            }
        } else if c == '/' && j < s.len() && s[j] == '*' {
            match com_end(s, i + 3) {
                None => None,
                Some(k) => if k < j || k >= s.len() { None } else {
                    css(s, k + 1, k + 1, if license(s, i) { a.push(one(T::Lic(s.subrange(i + 3, k - 1)))) } else { mark(a) }, depth, m, attr)
                },
            }
        } else if c == '[' {
            if attr { None } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, true) }
        } else if c == ']' {
            if !attr { None } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, false) }
        } else if c == '{' { css(s, j, j, a.push(one(T::Res(c))), depth + 1, m, attr)
        } else if c == '}' {
            if depth <= 0 { None } else { css(s, j, j, a.push(one(T::Res(c))), depth - 1, m && depth != 1, attr) }
        } else if c == ';' { css(s, j, j, a.push(one(T::Res(c))), depth, m && depth != 0, attr)
        } else if c == '=' && selop(a) { css(s, j, j, a.drop_last().push(one(T::SelOp(a.last().t->Res_0))), depth, m, attr)
        } else if blank(c) { css(s, j, j, if a.len() > 0 && sensitive(a.last().t) { mark(a) } else { a }, depth, m, attr)
        } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, attr) }
    }
}
/// the definition of css
pub proof fn lemma_css(s: Seq<char>, st: int, i: int, acc: Seq<E>, depth: int, media: bool, attr: bool)
    ensures css(s, st, i, acc, depth, media, attr) == ({
    if i < 0 || i >= s.len() { Some(word(s, st, s.len() as int, acc, sel(depth, media, attr))) }
    else if !reserved(s[i]) { css(s, st, i + 1, acc, depth, media, attr) }
    else {
        let c = s[i];
        let a = word(s, st, i, acc, sel(depth, media, attr));
        let m = media || (a.len() > 0 && a.last().t is At && !a.last().gap);
        let j = i + 1;
        if c == '\\' {
            if j < s.len() { css(s, j + 1, j + 1, a.push(one(T::Res('\\'))).push(one(T::Word(seq![s[j]]))), depth, m, attr) }
            else { css(s, j, j, a.push(one(T::Res('\\'))), depth, m, attr) }
        } else if c == '"' || c == '\'' {
            match str_end(s, j, c) {
                None => None,
                Some(k) => if k < j || k >= s.len() { None } else { css(s, k + 1, k + 1, a.push(one(T::Str(s.subrange(i, k + 1)))), depth, m, attr) },
            }
        } else if c == '/' && j < s.len() && s[j] == '*' {
            match com_end(s, i + 3) {
                None => None,
                Some(k) => if k < j || k >= s.len() { None } else {
                    css(s, k + 1, k + 1, if license(s, i) { a.push(one(T::Lic(s.subrange(i + 3, k - 1)))) } else { mark(a) }, depth, m, attr)
                },
            }
        } else if c == '[' {
            if attr { None } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, true) }
        } else if c == ']' {
            if !attr { None } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, false) }
        } else if c == '{' { css(s, j, j, a.push(one(T::Res(c))), depth + 1, m, attr)
        } else if c == '}' {
            if depth <= 0 { None } else { css(s, j, j, a.push(one(T::Res(c))), depth - 1, m && depth != 1, attr) }
        } else if c == ';' { css(s, j, j, a.push(one(T::Res(c))), depth, m && depth != 0, attr)
        } else if c == '=' && selop(a) { css(s, j, j, a.drop_last().push(one(T::SelOp(a.last().t->Res_0))), depth, m, attr)
        } else if blank(c) { css(s, j, j, if a.len() > 0 && sensitive(a.last().t) { mark(a) } else { a }, depth, m, attr)
        } else { css(s, j, j, a.push(one(T::Res(c))), depth, m, attr) }
    }
})
{ reveal(css); }
pub open spec fn css_tokens(s: Seq<char>) -> Option<Seq<E>> { css(s, 0, 0, Seq::empty(), 0, false, false) }

// ================================================================ which white space has a meaning
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn lower_seq(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower(c)) }
/// the functions in whose arguments the white space around + and - is required
pub open spec fn math_names() -> Seq<Seq<char>> {
    seq!["calc"@, "calc-size"@, "-webkit-calc"@, "-moz-calc"@, "min"@, "max"@, "clamp"@, "round"@, "mod"@, "rem"@, "sin"@, "cos"@, "tan"@,
        "asin"@, "acos"@, "atan"@, "atan2"@, "pow"@, "sqrt"@, "hypot"@, "log"@, "exp"@, "abs"@, "sign"@]
}
#[verifier::opaque]
pub open spec fn math_name(n: Seq<char>) -> bool { exists|k: int| 0 <= k < math_names().len() && lower_seq(#[trigger] math_names()[k]) == lower_seq(n) }
pub open spec fn math_fn(t: T) -> bool { match t { T::Word(n) => math_name(n), T::Pseudo(n) => math_name(n), _ => false } }
/// number of parentheses of a math function that are open after the first m tokens (at least one
/// from the function's name on); 0: not inside one
#[verifier::opaque]
pub open spec fn math(a: Seq<E>, m: int) -> (bool, int) decreases m {
    if m <= 0 || m > a.len() { (false, 0) }
    else {
        let (on, p) = math(a, m - 1);
        let t = a[m - 1];
        if on {
            if t.t == T::Res(')') { (p != 1, p - 1) } else if t.t == T::Res('(') { (true, p + 1) } else { (true, p) }
        } else { (math_fn(t.t) && !t.gap && m < a.len() && a[m].t == T::Res('('), p) }
    }
}
pub open spec fn wordy(t: T) -> bool { t is Word || t is Pseudo }
/// a simple selector or another word ends with t
pub open spec fn ends_word(t: T) -> bool { wordy(t) || t == T::Res(')') || t == T::Res(']') || t == T::Res('*') }
/// a simple selector or another word starts with a[k]
pub open spec fn starts_word(a: Seq<E>, k: int) -> bool {
    0 <= k < a.len() && {
        let t = a[k].t;
        wordy(t) || t is At || t == T::Res('*') || t == T::Res('[') || t == T::Res('\\')
        || (t == T::Res(':') && k + 1 < a.len() && !a[k].gap && (a[k + 1].t == T::Res(':') || a[k + 1].t is Pseudo))
    }
}
/// white space between a[j] and a[j+1] has a meaning
pub open spec fn req(a: Seq<E>, j: int) -> bool {
    0 <= j && j + 1 < a.len() && {
        let (p, n) = (a[j].t, a[j + 1].t);
        (ends_word(p) && starts_word(a, j + 1))
        || (wordy(p) && n == T::Res('('))
        || (p == T::Res('/') && n == T::Res('*'))
        || (math(a, j + 1).0 && (p == T::Res('+') || n == T::Res('+')) && p != T::Res(']') && sensitive(p))
    }
}
/// k is a with less white space, none of which had a meaning
pub open spec fn cleaned(a: Seq<E>, k: Seq<E>) -> bool {
    k.len() == a.len()
    && (forall|j: int| 0 <= j < a.len() ==> (#[trigger] k[j]).t == a[j].t && (k[j].gap ==> a[j].gap))
    && (forall|j: int| 0 <= j < a.len() && a[j].gap && #[trigger] req(a, j) ==> k[j].gap)
}
} // mod spec
