pub mod lspec {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtxt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ where things end
/// a character that is a token of its own or starts one
pub open spec fn rsv(c: char) -> bool {
    c == ',' || c == '(' || c == ')' || c == '{' || c == '}' || c == '[' || c == ']' || c == ':' || c == ';' || c == '.' || c == '\'' || c == '"' || c == '!' || c == '?'
    || c == '/' || c == '%' || c == '*' || c == '-' || c == '+' || c == '=' || c == '\\' || c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '<' || c == '>' || c == '|' || c == '&' || c == '`'
}
pub open spec fn is_rc(r: ReservedChar, c: char) -> bool { rch(r) == c || c == '\r' && r == ReservedChar::Backline }
pub open spec fn eol(c: char) -> bool { c == '\n' || c == '\r' }
/// the closing quote of a string whose first character is s[i]
pub open spec fn str_end(s: Seq<char>, i: int, q: char) -> Option<int> decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { None } else if s[i] == '\\' { str_end(s, i + 2, q) } else if s[i] == q { Some(i) } else { str_end(s, i + 1, q) }
}
/// the `*` of the `*/` of a comment whose first character is s[i], or the end
pub open spec fn com_end(s: Seq<char>, i: int) -> int decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == '*' && i + 1 < s.len() && s[i + 1] == '/' { i } else { com_end(s, i + 1) }
}
/// the end of the line
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { s.len() as int } else if eol(s[i]) { i } else { line_end(s, i + 1) }
}
/// the closing slash of a regular expression
pub open spec fn re_end(s: Seq<char>, i: int, class: bool) -> Option<int> decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { None }
    else if s[i] == '\\' { re_end(s, i + 2, class) }
    else if s[i] == '[' { re_end(s, i + 1, true) }
    else if s[i] == ']' { re_end(s, i + 1, false) }
    else if s[i] == '/' && !class { Some(i) }
    else if eol(s[i]) { None }
    else { re_end(s, i + 1, class) }
}
/// the end of the flags
pub open spec fn fl_end(s: Seq<char>, i: int) -> int decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == 'i' || s[i] == 'g' { fl_end(s, i + 1) } else { i }
}
#[verifier::opaque]
pub open spec fn occ(s: Seq<char>, a: int, b: int, c: char) -> bool { exists|k: int| a <= k < b && #[trigger] s[k] == c }
/// templates: `End` has the position of the closing backtick (of a template) or the one after the
/// closing brace (of a `${ }`), `Open` says that there is none, `Deep` that templates are nested
/// more than DEEP times
pub enum E { End(int), Open, Deep }
pub spec const DEEP: int = 1000;
pub open spec fn tpl(s: Seq<char>, i: int, d: int) -> E decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { E::Open }
    else if s[i] == '\\' { tpl(s, i + 2, d) }
    else if s[i] == '$' && i + 1 < s.len() && s[i + 1] == '{' { match interp(s, i + 1, 0, d) { E::End(k) => if i < k <= s.len() { tpl(s, k, d) } else { E::Open }, x => x } }
    else if s[i] == '`' { E::End(i) }
    else { tpl(s, i + 1, d) }
}
pub open spec fn interp(s: Seq<char>, i: int, count: int, d: int) -> E decreases s.len() + 2 - i {
    if i < 0 || i >= s.len() { E::Open }
    else if s[i] == '\\' { interp(s, i + 2, count, d) }
    else if s[i] == '"' || s[i] == '\'' { match str_end(s, i + 1, s[i]) { Some(k) => if i < k < s.len() { interp(s, k + 1, count, d) } else { E::Open }, None => E::Open } }
    else if s[i] == '`' { if d >= DEEP { E::Deep } else { match tpl(s, i + 1, d + 1) { E::End(k) => if i < k < s.len() { interp(s, k + 1, count, d) } else { E::Open }, x => x } } }
    else if s[i] == '{' { interp(s, i + 1, count + 1, d) }
    else if s[i] == '}' { if count == 1 { E::End(i + 1) } else { interp(s, i + 1, count - 1, d) } }
    else { interp(s, i + 1, count, d) }
}
pub proof fn lemma_strend(s: Seq<char>, i: int, q: char)
    requires 0 <= i
    ensures i >= s.len() ==> str_end(s, i, q) is None, i < s.len() && s[i] == '\\' ==> str_end(s, i, q) == str_end(s, if i + 2 <= s.len() { i + 2 } else { i + 1 }, q),
        i < s.len() && s[i] != '\\' && s[i] != q ==> str_end(s, i, q) == str_end(s, i + 1, q), i < s.len() && s[i] == q && q != '\\' ==> str_end(s, i, q) == Some(i),
{ if i + 1 == s.len() { assert(str_end(s, i + 1, q) is None); assert(str_end(s, i + 2, q) is None); } }
pub proof fn lemma_com(s: Seq<char>, i: int)
    requires 0 <= i
    ensures i >= s.len() ==> com_end(s, i) == s.len(), i < s.len() ==> com_end(s, i) == if s[i] == '*' && i + 1 < s.len() && s[i + 1] == '/' { i } else { com_end(s, i + 1) },
{}
pub proof fn lemma_tpl(s: Seq<char>, i: int, d: int)
    requires 0 <= i
    ensures i >= s.len() ==> tpl(s, i, d) is Open, i < s.len() && s[i] == '\\' ==> tpl(s, i, d) == tpl(s, if i + 2 <= s.len() { i + 2 } else { i + 1 }, d),
        i < s.len() && s[i] == '`' ==> tpl(s, i, d) == E::End(i),
        i < s.len() && s[i] != '\\' && s[i] != '`' && !(s[i] == '$' && i + 1 < s.len() && s[i + 1] == '{') ==> tpl(s, i, d) == tpl(s, i + 1, d),
        i + 1 < s.len() && s[i] == '$' && s[i + 1] == '{' ==> tpl(s, i, d) == (match interp(s, i + 1, 0, d) { E::End(k) => if i < k <= s.len() { tpl(s, k, d) } else { E::Open }, x => x }),
{ if i + 1 == s.len() { assert(tpl(s, i + 1, d) is Open); assert(tpl(s, i + 2, d) is Open); } }
pub proof fn lemma_interp(s: Seq<char>, i: int, count: int, d: int)
    requires 0 <= i
    ensures i >= s.len() ==> interp(s, i, count, d) is Open,
        i < s.len() && s[i] == '\\' ==> interp(s, i, count, d) == interp(s, if i + 2 <= s.len() { i + 2 } else { i + 1 }, count, d),
        i < s.len() && (s[i] == '"' || s[i] == '\'') ==> interp(s, i, count, d) == (match str_end(s, i + 1, s[i]) { Some(k) => if i < k < s.len() { interp(s, k + 1, count, d) } else { E::Open }, None => E::Open }),
        i < s.len() && s[i] == '`' ==> interp(s, i, count, d) == if d >= DEEP { E::Deep } else { match tpl(s, i + 1, d + 1) { E::End(k) => if i < k < s.len() { interp(s, k + 1, count, d) } else { E::Open }, x => x } },
        i < s.len() && s[i] == '{' ==> interp(s, i, count, d) == interp(s, i + 1, count + 1, d),
        i < s.len() && s[i] == '}' ==> interp(s, i, count, d) == if count == 1 { E::End(i + 1) } else { interp(s, i + 1, count - 1, d) },
        i < s.len() && s[i] != '\\' && s[i] != '"' && s[i] != '\'' && s[i] != '`' && s[i] != '{' && s[i] != '}' ==> interp(s, i, count, d) == interp(s, i + 1, count, d),
{ if i + 1 == s.len() { assert(interp(s, i + 1, count, d) is Open); assert(interp(s, i + 2, count, d) is Open); } }
pub proof fn lemma_re(s: Seq<char>, i: int, class: bool)
    requires 0 <= i
    ensures i >= s.len() ==> re_end(s, i, class) is None, i < s.len() && s[i] == '\\' ==> re_end(s, i, class) == re_end(s, if i + 2 <= s.len() { i + 2 } else { i + 1 }, class),
        i < s.len() && s[i] != '\\' ==> re_end(s, i, class) == if s[i] == '[' { re_end(s, i + 1, true) } else if s[i] == ']' { re_end(s, i + 1, false) }
            else if s[i] == '/' && !class { Some(i) } else if eol(s[i]) { None } else { re_end(s, i + 1, class) },
{ if i + 1 == s.len() { assert(re_end(s, i + 1, class) is None); assert(re_end(s, i + 2, class) is None); } }
pub proof fn lemma_has(s: Seq<char>, a: int, b: int, c: char)
    requires 0 <= a <= b
    ensures a == b ==> !occ(s, a, b, c), b < s.len() ==> occ(s, a, b + 1, c) == (occ(s, a, b, c) || s[b] == c),
{ reveal(occ); if b < s.len() && s[b] == c { assert(a <= b < b + 1 && s[b] == c); } }
pub proof fn lemma_fl(s: Seq<char>, i: int)
    requires 0 <= i
    ensures i >= s.len() ==> fl_end(s, i) == s.len(), i < s.len() ==> fl_end(s, i) == if s[i] == 'i' || s[i] == 'g' { fl_end(s, i + 1) } else { i },
{}
/// the number of backticks from the i-th character on
pub open spec fn ticks(s: Seq<char>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { 0 } else { ticks(s, i + 1) + if s[i] == '`' { 1int } else { 0 } } }
pub proof fn lemma_ticks(s: Seq<char>, i: int, k: int)
    requires 0 <= i <= k
    ensures ticks(s, k) <= ticks(s, i), 0 <= ticks(s, i)
    decreases k - i, s.len() - i
{ if i < s.len() { if i < k { lemma_ticks(s, i + 1, k); } else { lemma_ticks(s, i + 1, i + 1); } } }
/// only a text with that many backticks is nested too deep
pub proof fn lemma_deep_tpl(s: Seq<char>, i: int, d: int)
    requires 0 <= i, 0 <= d <= DEEP, tpl(s, i, d) is Deep
    ensures ticks(s, i) > DEEP - d
    decreases s.len() + 2 - i
{
    lemma_ticks(s, i, i + 1); lemma_ticks(s, i, i + 2);
    if i >= s.len() {}
    else if s[i] == '\\' { lemma_deep_tpl(s, i + 2, d); }
    else if s[i] == '$' && i + 1 < s.len() && s[i + 1] == '{' { match interp(s, i + 1, 0, d) { E::End(k) => if i < k <= s.len() { lemma_ticks(s, i, k); lemma_deep_tpl(s, k, d); }, _ => { lemma_deep_interp(s, i + 1, 0, d); } } }
    else if s[i] != '`' { lemma_deep_tpl(s, i + 1, d); }
}
pub proof fn lemma_deep_interp(s: Seq<char>, i: int, count: int, d: int)
    requires 0 <= i, 0 <= d <= DEEP, interp(s, i, count, d) is Deep
    ensures ticks(s, i) > DEEP - d
    decreases s.len() + 2 - i
{
    lemma_ticks(s, i, i + 1); lemma_ticks(s, i, i + 2);
    if i >= s.len() {}
    else if s[i] == '\\' { lemma_deep_interp(s, i + 2, count, d); }
    else if s[i] == '"' || s[i] == '\'' { match str_end(s, i + 1, s[i]) { Some(k) => if i < k < s.len() { lemma_ticks(s, i, k + 1); lemma_deep_interp(s, k + 1, count, d); }, None => {} } }
    else if s[i] == '`' { lemma_ticks(s, i + 1, i + 1); if d < DEEP { match tpl(s, i + 1, d + 1) { E::End(k) => if i < k < s.len() { lemma_ticks(s, i, k + 1); lemma_deep_interp(s, k + 1, count, d); }, _ => { lemma_deep_tpl(s, i + 1, d + 1); } } } }
    else if s[i] == '{' { lemma_deep_interp(s, i + 1, count + 1, d); }
    else if s[i] == '}' { if count != 1 { lemma_deep_interp(s, i + 1, count - 1, d); } }
    else { lemma_deep_interp(s, i + 1, count, d); }
}

// ================================================================ when a `/` starts a regular expression
/// after these tokens an operand is expected
pub open spec fn re_ctx(v: Seq<J>) -> bool decreases v.len() {
    if v.len() == 0 { true }
    else if white(v.last()) || v.last() is Comment || v.last() is License { re_ctx(v.drop_last()) }
    else {
        match v.last() {
            J::Char(c) => c == ReservedChar::SemiColon || c == ReservedChar::Colon || c == ReservedChar::Comma || c == ReservedChar::OpenBracket || c == ReservedChar::OpenParenthese
                || c == ReservedChar::ExclamationMark || c == ReservedChar::OpenCurlyBrace || c == ReservedChar::QuestionMark || c == ReservedChar::Pipe || c == ReservedChar::Ampersand,
            J::Keyword(k) => !(k == Keyword::False || k == Keyword::Null || k == Keyword::This || k == Keyword::True),
            J::Operation(_) => true,
            J::Condition(_) => true,
            _ => false,
        }
    }
}
/// the last token that is not a blank
pub open spec fn useful(v: Seq<J>) -> Option<J> decreases v.len() {
    if v.len() == 0 { None } else if white(v.last()) { useful(v.drop_last()) } else { Some(v.last()) }
}
pub proof fn lemma_useful(v: Seq<J>)
    ensures useful(v) is Some && useful(v)->0 is Other ==> !re_ctx(v)
    decreases v.len()
{ if v.len() > 0 && white(v.last()) { lemma_useful(v.drop_last()); } }
/// s[a] is the `/` of a regular expression
pub open spec fn re_at(s: Seq<char>, v: Seq<J>, a: int) -> bool {
    re_ctx(v) && a + 1 < s.len() && s[a + 1] != '/' && s[a + 1] != '*' && re_end(s, a + 1, false) is Some
}

// ================================================================ S02: the tokens are the text
pub open spec fn digits(w: Seq<char>) -> bool { forall|k: int| 0 <= k < w.len() ==> '0' <= #[trigger] w[k] <= '9' }
pub open spec fn val(w: Seq<char>) -> int decreases w.len() { if w.len() == 0 { 0 } else { 10 * val(w.drop_last()) + (w.last() as int - '0' as int) } }
/// a number without leading zeros is what is printed for its value
pub proof fn lemma_dec(w: Seq<char>)
    requires digits(w), w.len() > 0, w.len() == 1 || w[0] != '0'
    ensures dec(val(w)) == w, w[0] != '0' ==> val(w) > 0
    decreases w.len()
{
    let (d, l) = (w.drop_last(), w.last() as int - '0' as int);
    assert(w.last() == w[w.len() - 1]);
    assert(0 <= l <= 9);
    assert(dig(l) == w.last());
    if w.len() == 1 {
        assert(d.len() == 0);
        assert(val(d) == 0);
        assert(w =~= seq![dig(l)]);
    } else {
        assert(d[0] == w[0]);
        lemma_dec(d);
        assert(val(w) / 10 == val(d) && val(w) % 10 == l) by (nonlinear_arith) requires val(w) == 10 * val(d) + l, 0 <= l <= 9;
        assert(w =~= d.push(dig(l)));
    }
}
pub uninterp spec fn f64_ok(w: Seq<char>) -> bool;
pub open spec fn kw(w: Seq<char>) -> bool { exists|k: Keyword| #[trigger] ktext(k) == w }
pub open spec fn wordy(t: J) -> bool { t is Keyword || t is Number || t is FloatingNumber || t is Other }
/// t is what this word is
pub open spec fn word(t: J, w: Seq<char>) -> bool {
    match t {
        J::Keyword(k) => ktext(k) == w,
        J::Number(n) => !kw(w) && dec(n as int) == w,
        J::FloatingNumber(x) => !kw(w) && x == w && f64_ok(w),
        J::Other(x) => !kw(w) && x == w && !f64_ok(w),
        _ => false,
    }
}
pub open spec fn quote_tok(t: J) -> bool { t == J::Char(ReservedChar::Quote) || t == J::Char(ReservedChar::DoubleQuote) || t == J::Char(ReservedChar::BackTick) }
/// the characters from a to b make a word: none of them is a token, or an unclosed string came before
pub open spec fn wordable(s: Seq<char>, v: Seq<J>, a: int, b: int) -> bool {
    ||| forall|k: int| a <= k < b ==> !rsv(#[trigger] s[k]) || s[k] == '.'
    ||| b == s.len() && v.len() > 0 && quote_tok(v.last())
}
/// what comes after v starts at a
pub open spec fn after(s: Seq<char>, v: Seq<J>, t: J, a: int) -> bool {
    v.len() > 0 ==> (v.last() == J::Operation(Operation::Divide) ==> s[a] != '/' && s[a] != '*') && !(wordy(v.last()) && wordy(t))
}
/// t is what stands from a to b, after the tokens v
pub open spec fn tok(s: Seq<char>, v: Seq<J>, t: J, a: int, b: int) -> bool {
    &&& 0 <= a < b <= s.len()
    &&& after(s, v, t, a)
    &&& match t {
        J::Char(c) => b == a + 1 && is_rc(c, s[a]) && (match c {
            ReservedChar::Quote => str_end(s, a + 1, '\'') is None,
            ReservedChar::DoubleQuote => str_end(s, a + 1, '"') is None,
            ReservedChar::BackTick => tpl(s, a + 1, 0) is Open,
            ReservedChar::Slash => false, ReservedChar::Star => false, ReservedChar::Plus => false, ReservedChar::Minus => false,
            ReservedChar::EqualSign => false, ReservedChar::Modulo => false, ReservedChar::LessThan => false, ReservedChar::SuperiorThan => false,
            _ => true,
        }),
        J::String(x) => x == s.subrange(a, b) && (if s[a] == '`' { tpl(s, a + 1, 0) == E::End(b - 1) } else { (s[a] == '"' || s[a] == '\'') && str_end(s, a + 1, s[a]) == Some(b - 1) }),
        J::Comment(x) => a + 1 < s.len() && s[a] == '/' && (
            if s[a + 1] == '/' { let e = line_end(s, a + 2); x == s.subrange(a + 2, e) && (b == e + 1 || b == e == s.len()) }
            else { let e = com_end(s, a + 2); s[a + 1] == '*' && !(a + 2 < s.len() && s[a + 2] == '!') && x == s.subrange(a + 2, e) && (b == e + 2 || b == e == s.len()) }),
        J::License(x) => a + 2 < s.len() && s[a] == '/' && s[a + 1] == '*' && s[a + 2] == '!' && ({ let e = com_end(s, a + 3); x == s.subrange(a + 3, e) && (b == e + 2 || b == e == s.len()) }),
        J::Regex { regex, is_global, is_interactive } => s[a] == '/' && re_at(s, v, a)
            && ({ let e = re_end(s, a + 1, false)->0; regex == s.subrange(a + 1, e) && b == fl_end(s, e + 1) && is_global == occ(s, e + 1, b, 'g') && is_interactive == occ(s, e + 1, b, 'i') }),
        J::Operation(o) => otext(o) == s.subrange(a, b) && (o == Operation::Divide || o == Operation::DivideEqual ==> !re_at(s, v, a)),
        J::Condition(c) => ctext(c) == s.subrange(a, b),
        J::CreatedVarDecl(_) => false,
        J::CreatedVar(_) => false,
        _ => word(t, s.subrange(a, b)) && wordable(s, v, a, b),
    }
}
/// token k is what stands from p[k] to p[k + 1]
pub open spec fn spans(s: Seq<char>, v: Seq<J>, p: Seq<int>) -> bool {
    p.len() == v.len() + 1 && p[0] == 0 && forall|k: int| 0 <= k < v.len() ==> tok(s, v.take(k), #[trigger] v[k], p[k], p[k + 1])
}
/// the tokens v are the first st characters, without a gap and without an overlap
#[verifier::opaque]
pub open spec fn lexed(s: Seq<char>, v: Seq<J>, st: int) -> bool { exists|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == st }
/// where the last token starts
pub open spec fn last_at(s: Seq<char>, v: Seq<J>, st: int) -> int { choose|a: int| lexed(s, v.drop_last(), a) && #[trigger] tok(s, v.drop_last(), v.last(), a, st) }
/// a template starts after the tokens of the text's beginning, and inside of it templates are nested more than DEEP times
pub open spec fn deep(s: Seq<char>) -> bool { exists|v: Seq<J>, i: int| #[trigger] lexed(s, v, i) && 0 <= i < s.len() && s[i] == '`' && tpl(s, i + 1, 0) is Deep }
pub proof fn prop_deep(s: Seq<char>)
    requires deep(s)
    ensures ticks(s, 0) > DEEP + 1
{
    let (v, i) = choose|v: Seq<J>, i: int| #[trigger] lexed(s, v, i) && 0 <= i < s.len() && s[i] == '`' && tpl(s, i + 1, 0) is Deep;
    lemma_deep_tpl(s, i + 1, 0);
    lemma_ticks(s, 0, i);
}
pub broadcast proof fn lemma_lexed_push(s: Seq<char>, v: Seq<J>, t: J, a: int, b: int)
    requires #[trigger] lexed(s, v, a), tok(s, v, t, a, b)
    ensures #[trigger] lexed(s, v.push(t), b)
{
    reveal(lexed);
    let p = choose|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == a;
    let (w, q) = (v.push(t), p.push(b));
    assert forall|k: int| 0 <= k < w.len() implies tok(s, w.take(k), #[trigger] w[k], q[k], q[k + 1]) by {
        assert(w.take(k) =~= v.take(k));
        if k < v.len() { assert(v[k] == w[k]); } else { assert(v.take(k) =~= v); }
    }
    assert(spans(s, w, q));
}
pub broadcast proof fn lemma_lexed_pop(s: Seq<char>, v: Seq<J>, st: int)
    requires #[trigger] lexed(s, v, st), v.len() > 0
    ensures lexed(s, #[trigger] v.drop_last(), last_at(s, v, st)), tok(s, v.drop_last(), v.last(), last_at(s, v, st), st)
{
    reveal(lexed);
    let p = choose|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == st;
    let (w, q) = (v.drop_last(), p.drop_last());
    assert forall|k: int| 0 <= k < w.len() implies tok(s, w.take(k), #[trigger] w[k], q[k], q[k + 1]) by {
        assert(w.take(k) =~= v.take(k)); assert(v[k] == w[k]);
    }
    assert(spans(s, w, q));
    assert(v.take(v.len() - 1) =~= w);
    assert(tok(s, w, v[v.len() - 1], q.last(), st));
    assert(lexed(s, w, q.last()));
}
pub broadcast proof fn lemma_lexed_nil(s: Seq<char>)
    ensures #[trigger] lexed(s, Seq::empty(), 0)
{ reveal(lexed); assert(spans(s, Seq::empty(), seq![0int])); }
pub broadcast group group_lexed { lemma_lexed_push, lemma_lexed_pop, lemma_lexed_nil }
} // mod lspec

pub mod lex {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::lspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, group_off, group_lexed};

//@ rw Self :: Error =>> &'static str
//@ rw CharIndices < 'a > =>> CharIndices
//@ rw impl < 'a > MyPeekable < 'a > =>> impl MyPeekable
//@ rw MyPeekable < 'a > =>> MyPeekable
//@ rw MyPeekable < '_ > =>> MyPeekable
//@ rw & source [ $$a .. ] =>> vx_slice(source, $$a, vx_len(source))
//@ rw & source [ $$a .. $$b ] =>> vx_slice(source, $$a, $$b)
//@ rw source . len ( ) =>> vx_len(source)
//@ rw source . char_indices ( ) =>> vx_char_indices(source)
//@ rw source [ $$a .. $$b ] . starts_with ( [ $c , $d ] ) =>> vx_starts2(vx_slice(source, $$a, $$b), $c, $d)
//@ rw source [ $$a .. $$b ] . find ( $c ) . is_some ( ) =>> vx_find(vx_slice(source, $$a, $$b), $c)
//@ rw source [ $$a .. $$b ] . contains ( $c ) =>> vx_find(vx_slice(source, $$a, $$b), $c)
//@ rw usize :: from_str ( $$x ) =>> vx_usize($$x)
//@ rw u64 :: from_str ( $$x ) . is_ok ( ) =>> vx_u64_ok($$x)
//@ rw f64 :: from_str ( $$x ) . is_ok ( ) =>> vx_f64_ok($$x)
//@ rw "0123456789,; \t\n<>/*&|{}[]-+=~%^:!" . contains ( $$c ) =>> vx_find("0123456789,; \t\n<>/*&|{}[]-+=~%^:!", $$c)
//@ rw $i . peek ( ) . map ( | ( _ , $a ) | $b == $c ) . unwrap_or ( false ) =>> vx_peeked($i.peek(), $c)
//@ rw $i . peek ( ) . is_some_and ( | ( _ , $a ) | $b == $c ) =>> vx_peeked($i.peek(), $c)
//@ rw $s . find ( $c ) . is_some ( ) =>> vx_find($s, $c)
//@ rw $s . find ( $c ) . is_none ( ) =>> !vx_find($s, $c)
//@ rw for ( $a , $b ) in iterator =>> while let Some(($a, $b)) = iterator.next()

#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_starts2(s: &str, a: char, b: char) -> (r: bool) ensures r == (s@.len() > 0 && (s@[0] == a || s@[0] == b)) { s.starts_with([a, b]) }
#[verifier::external_body]
pub fn vx_find(s: &str, c: char) -> (r: bool) { s.contains(c) }
/// usize::from_str: digits, after at most one plus sign
#[verifier::external_body]
pub fn vx_usize(s: &str) -> (r: Result<usize, ()>)
    ensures r is Ok ==> s@.len() > 0 && ({ let d = if s@[0] == '+' { s@.skip(1) } else { s@ }; d.len() > 0 && digits(d) && val(d) == r->Ok_0 })
{ s.parse().map_err(|_| ()) }
#[verifier::external_body]
pub fn vx_u64_ok(s: &str) -> (r: bool) { s.parse::<u64>().is_ok() }
#[verifier::external_body]
pub fn vx_f64_ok(s: &str) -> (r: bool) ensures r == f64_ok(s@) { s.parse::<f64>().is_ok() }
impl Clone for CharIndices {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.src() == self.src(), r.idx() == self.idx() { unimplemented!() }
}

// ================================================================ code: small functions
//@ fn src/js/token.rs impl=ReservedChar trait=TryFrom<char> try_from
//@ spec
    ensures r is Ok == rsv(value), r is Ok ==> is_rc(r->Ok_0, value),
//@ end
//@ fn src/js/token.rs impl=Keyword trait=TryFrom try_from
//@ spec
    ensures match r { Ok(k) => ktext(k) == value@, Err(_) => !kw(value@) },
//@ end
//@ fn src/js/token.rs impl=Condition trait=TryFrom try_from
//@ spec
    ensures r is Ok == (value == ReservedChar::SuperiorThan || value == ReservedChar::LessThan), r is Ok ==> ctext(r->Ok_0) =~= seq![rch(value)],
//@ start
    proof { reveal_strlit("<"); reveal_strlit(">"); }
//@ end
//@ fn src/js/token.rs impl=Operation trait=TryFrom try_from
//@ spec
    ensures r is Ok == (value == ReservedChar::Plus || value == ReservedChar::Minus || value == ReservedChar::Slash || value == ReservedChar::Star || value == ReservedChar::Modulo || value == ReservedChar::EqualSign),
        r is Ok ==> otext(r->Ok_0) =~= seq![rch(value)], r is Ok && value == ReservedChar::Slash ==> r->Ok_0 == Operation::Divide,
        r is Ok && value != ReservedChar::Slash ==> r->Ok_0 != Operation::Divide && r->Ok_0 != Operation::DivideEqual,
//@ start
    proof { reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("/"); reveal_strlit("*"); reveal_strlit("%"); reveal_strlit("="); }
//@ end

// ================================================================ code: MyPeekable
//@ type src/js/token.rs MyPeekable
impl MyPeekable {
    pub open spec fn src(&self) -> Seq<char> { self.inner.src() }
    /// the index of the next character
    pub open spec fn idx(&self) -> int { self.inner.idx() - if self.peeked is Some { 1int } else { 0 } }
    pub open spec fn wf(&self) -> bool {
        peek_ok(self.inner, self.peeked) && (self.saved is Some ==> (self.saved->0).0.src() == self.src() && peek_ok((self.saved->0).0, (self.saved->0).1))
    }
    /// the index that was saved
    pub open spec fn mark(&self) -> Option<int> { match self.saved { Some((i, p)) => Some(i.idx() - if p is Some { 1int } else { 0 }), None => None } }
}
pub open spec fn peek_ok(i: CharIndices, p: Option<(usize, char)>) -> bool {
    0 <= i.idx() <= i.src().len() && (p is Some ==> i.idx() > 0 && p->0 == (off(i.src(), i.idx() - 1) as usize, i.src()[i.idx() - 1]) && off(i.src(), i.idx()) <= isize::MAX
        && off(i.src(), i.idx()) == off(i.src(), i.idx() - 1) + wid(i.src()[i.idx() - 1]))
}
/// the character at the index, and where it stands
pub open spec fn here(s: Seq<char>, i: int, r: Option<(usize, char)>) -> bool {
    if i >= s.len() { r is None } else { r == Some((off(s, i) as usize, s[i])) && off(s, i) <= usize::MAX && off(s, i + 1) == off(s, i) + wid(s[i]) && off(s, i + 1) <= isize::MAX }
}
//@ fn src/js/token.rs impl=MyPeekable new
//@ spec
    ensures r.src() == indices.src(), 0 <= indices.idx() <= indices.src().len() ==> r.wf() && r.idx() == indices.idx(), r.mark() is None,
//@ end
//@ fn src/js/token.rs impl=MyPeekable start_save
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).src() == old(self).src(), final(self).idx() == old(self).idx(), final(self).mark() == Some(old(self).idx()),
//@ end
//@ fn src/js/token.rs impl=MyPeekable drop_save
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).src() == old(self).src(), final(self).idx() == old(self).idx(),
//@ end
//@ fn src/js/token.rs impl=MyPeekable stop_save
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).src() == old(self).src(), final(self).idx() == (match old(self).mark() { Some(i) => i, None => old(self).idx() }),
//@ end
//@ fn src/js/token.rs impl=MyPeekable peek
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).src() == old(self).src(), final(self).idx() == old(self).idx(), final(self).mark() == old(self).mark(),
        0 <= old(self).idx() <= old(self).src().len(), here(old(self).src(), old(self).idx(), r),
//@ end
//@ fn src/js/token.rs impl=MyPeekable trait=Iterator next
//@ rw Self :: Item =>> (usize, char)
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).src() == old(self).src(), final(self).mark() == old(self).mark(),
        0 <= old(self).idx() <= old(self).src().len(), here(old(self).src(), old(self).idx(), r),
        final(self).idx() == if old(self).idx() < old(self).src().len() { old(self).idx() + 1 } else { old(self).idx() },
//@ end

// ================================================================ code: comments, regular expressions, strings
/// the constructors used as values, defunctionalised
pub enum VxBuild { License, Comment }
impl VxBuild {
    pub fn call<'a>(self, s: &'a str) -> (r: Token<'a>)
        ensures r == (match self { VxBuild::License => Token::License(s), VxBuild::Comment => Token::Comment(s) })
    { match self { VxBuild::License => Token::License(s), VxBuild::Comment => Token::Comment(s) } }
}
/// the iterator is in this text, after a one-byte character where `start` is
pub open spec fn started(it: MyPeekable, source: &str, start: usize) -> bool {
    it.wf() && it.src() == source@ && 1 <= it.idx() <= source@.len() && start == off(source@, it.idx() - 1) && off(source@, it.idx()) == start + 1
}
//@ fn src/js/token.rs get_line_comment
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires started(*old(iterator), source, *old(start_pos)),
    ensures final(iterator).wf(), final(iterator).src() == source@,
        ({ let (s, i) = (source@, old(iterator).idx()); let e = line_end(s, i);
           &&& i <= e <= s.len()
           &&& final(iterator).idx() == if e < s.len() { e + 1 } else { e }
           &&& *final(start_pos) == off(s, e)
           &&& e < s.len() ==> off(s, e + 1) == off(s, e) + 1
           &&& r is Some
           &&& tv(r->0) == J::Comment(s.subrange(i, e)) }),
//@ start
    let ghost (s, i) = (source@, iterator.idx());
    proof { axiom_len(source); assert(off(s, i) <= off(s, s.len() as int)); }
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, i <= iterator.idx() <= s.len(), *start_pos == off(s, i), line_end(s, i) == line_end(s, iterator.idx()),
    decreases s.len() - iterator.idx()
//@ end
//@ fn src/js/token.rs get_comment
//@ rw Token :: License =>> VxBuild::License
//@ rw Token :: Comment =>> VxBuild::Comment
//@ rw builder ( $$x ) =>> builder.call($$x)
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires started(*old(iterator), source, *old(start_pos)),
    ensures final(iterator).wf(), final(iterator).src() == source@,
        ({ let (s, i) = (source@, old(iterator).idx()); let lic = i < s.len() && s[i] == '!'; let b = if lic { i + 1 } else { i }; let e = com_end(s, b);
           &&& b <= e <= s.len()
           &&& e < s.len() ==> e + 1 < s.len() && final(iterator).idx() == e + 2 && *final(start_pos) + 1 == off(s, e + 2)
           &&& e == s.len() ==> final(iterator).idx() == e && *final(start_pos) == off(s, e) + 1
           &&& tv(r) == if lic { J::License(s.subrange(b, e)) } else { J::Comment(s.subrange(b, e)) } }),
//@ start
    let ghost (s, i) = (source@, iterator.idx());
    let ghost lic = i < s.len() && s[i] == '!';
    let ghost b = if lic { i + 1 } else { i };
    proof { axiom_len(source); assert(off(s, i) <= off(s, s.len() as int)); }
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, b <= iterator.idx() <= s.len(), *start_pos == off(s, b), end == off(s, s.len() as int),
        builder is License == lic,
        com_end(s, b) == com_end(s, if prev == ReservedChar::Star { iterator.idx() - 1 } else { iterator.idx() }),
        prev == ReservedChar::Star ==> iterator.idx() > b && s[iterator.idx() - 1] == '*' && off(s, iterator.idx()) == off(s, iterator.idx() - 1) + 1,
    decreases s.len() - iterator.idx()
//@ loop 1 start
    proof { let k = iterator.idx(); lemma_com(s, k); if k > b { lemma_com(s, k - 1); } }
//@ end
//@ fn src/js/token.rs get_regex
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires started(*old(iterator), source, *old(start_pos)), old(iterator).idx() < source@.len(),
    ensures final(iterator).wf(), final(iterator).src() == source@,
        ({ let (s, i) = (source@, old(iterator).idx()); let e = re_end(s, i, false); let f = fl_end(s, e->0 + 1);
           if re_ctx(vv(v@)) && e is Some {
               &&& i <= e->0 < f <= s.len()
               &&& final(iterator).idx() == f
               &&& *final(start_pos) + 1 == off(s, f)
               &&& r is Some
               &&& tv(r->0) == J::Regex { regex: s.subrange(i, e->0), is_global: occ(s, e->0 + 1, f, 'g'), is_interactive: occ(s, e->0 + 1, f, 'i') }
           } else { r is None && final(iterator).idx() == i && *final(start_pos) == *old(start_pos) } }),
//@ start
    let ghost (s, i) = (source@, iterator.idx());
    proof { axiom_len(source); assert(off(s, i) <= off(s, s.len() as int)); assert(vv(v@).take(v@.len() as int) =~= vv(v@)); }
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, iterator.idx() == i, back <= v@.len(), re_ctx(vv(v@)) == re_ctx(vv(v@).take(back as int)), *start_pos == off(s, i - 1),
    decreases back
//@ loop 1 start
    proof { let m = back as int; if m > 0 { assert(vv(v@).take(m).drop_last() =~= vv(v@).take(m - 1)); assert(vv(v@).take(m).last() == tv(v@[m - 1])); } }
//@ loop 2
    invariant iterator.wf(), iterator.src() == s, i <= iterator.idx() <= s.len(), *start_pos == off(s, i - 1), iterator.mark() == Some(i), re_ctx(vv(v@)),
        re_end(s, i, false) == re_end(s, iterator.idx(), in_class),
    decreases s.len() - iterator.idx()
//@ loop 2 start
    proof { lemma_re(s, iterator.idx(), in_class); }
//@ loop 3
    invariant iterator.wf(), iterator.src() == s, *start_pos == off(s, i - 1), re_ctx(vv(v@)),
        ({ let e = re_end(s, i, false)->0; let k = iterator.idx();
           re_end(s, i, false) == Some(e) && i <= e < k <= s.len() && pos == off(s, e) && fl_end(s, e + 1) == fl_end(s, k) && off(s, k) == pos + 1 + add && add == k - e - 1
           && is_global == occ(s, e + 1, k, 'g') && is_interactive == occ(s, e + 1, k, 'i') }),
    decreases s.len() - iterator.idx()
//@ loop 3 start
    proof { let e = re_end(s, i, false)->0; lemma_has(s, e + 1, iterator.idx(), 'g'); lemma_has(s, e + 1, iterator.idx(), 'i'); lemma_fl(s, iterator.idx()); }
//@ before let mut is_global = false
    proof { let e = iterator.idx(); lemma_has(s, e, e, 'g'); lemma_has(s, e, e, 'i'); }
//@ end
//@ fn src/js/token.rs get_string
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires started(*old(iterator), source, *old(start_pos)), start == ReservedChar::Quote || start == ReservedChar::DoubleQuote,
    ensures final(iterator).wf(), final(iterator).src() == source@, final(iterator).idx() >= old(iterator).idx(),
        ({ let (s, i) = (source@, old(iterator).idx());
           match str_end(s, i, rch(start)) {
               Some(e) => i <= e < s.len() && final(iterator).idx() == e + 1 && *final(start_pos) == off(s, e) && off(s, e + 1) == off(s, e) + 1
                   && r is Some && tv(r->0) == J::String(s.subrange(i - 1, e + 1)),
               None => r is None && final(iterator).idx() == s.len() && *final(start_pos) == *old(start_pos),
           } }),
//@ start
    let ghost (s, i) = (source@, iterator.idx());
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, i <= iterator.idx() <= s.len(), *start_pos == off(s, i - 1),
        str_end(s, i, rch(start)) == str_end(s, iterator.idx(), rch(start)),
    decreases s.len() - iterator.idx()
//@ loop 1 start
    proof { lemma_strend(s, iterator.idx(), rch(start)); }
//@ end
//@ type src/js/token.rs MAX_BACKTICK_NESTING
//@ fn src/js/token.rs get_backtick_string
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires started(*old(iterator), source, *old(start_pos)), depth <= DEEP, source@.len() < 0x7fff_ffff,
    ensures final(iterator).wf(), final(iterator).src() == source@, final(iterator).idx() >= old(iterator).idx(),
        ({ let (s, i) = (source@, old(iterator).idx());
           match tpl(s, i, depth as int) {
               E::End(e) => i <= e < s.len() && final(iterator).idx() == e + 1 && *final(start_pos) == off(s, e) && off(s, e + 1) == off(s, e) + 1
                   && r is Ok && r->Ok_0 is Some && tv((r->Ok_0)->0) == J::String(s.subrange(i - 1, e + 1)),
               E::Open => r is Ok && r->Ok_0 is None && final(iterator).idx() == s.len() && *final(start_pos) == *old(start_pos),
               E::Deep => r is Err,
           } }),
    decreases DEEP - depth
//@ start
    let ghost (s, i, d) = (source@, iterator.idx(), depth as int);
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, i <= iterator.idx() <= s.len(), *start_pos == off(s, i - 1),
        tpl(s, i, d) == tpl(s, iterator.idx(), d),
    decreases s.len() - iterator.idx()
//@ loop 1 start
    proof { lemma_tpl(s, iterator.idx(), d); }
//@ loop 2
    invariant iterator.wf(), iterator.src() == s, j < iterator.idx() <= s.len(), *start_pos == off(s, i - 1),
        0 <= count <= iterator.idx(), iterator.idx() == j + 1 ==> count == 0, iterator.idx() > j + 1 ==> count > 0,
        s[j + 1] == '{', j + 1 < s.len(), s[j] == '$', 0 <= j,
        tpl(s, i, d) == tpl(s, j, d),
        interp(s, j + 1, 0, d) == interp(s, iterator.idx(), count as int, d),
    decreases s.len() - iterator.idx()
//@ loop 2 start
    proof { lemma_interp(s, iterator.idx(), count as int, d); }
//@ before let mut count = 0
    let ghost j = iterator.idx() - 1;
    proof { lemma_tpl(s, j, d); }
//@ end
//@ fn src/js/token.rs first_useful
//@ rw for $t in v . iter ( ) . rev ( ) =>> let mut __it1 = vx_rev(v); while let Some($t) = __it1.next()
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    ensures match r { Some(t) => useful(vv(v@)) == Some(tv(*t)), None => useful(vv(v@)) is None },
//@ loop 1
    invariant __it1.s@ == v@, __it1.n <= v@.len(), useful(vv(v@)) == useful(vv(v@).take(__it1.n as int)),
    decreases __it1.n
//@ loop 1 start
    proof { let m = __it1.n as int; if m > 0 { assert(vv(v@).take(m).drop_last() =~= vv(v@).take(m - 1)); assert(vv(v@).take(m).last() == tv(v@[m - 1])); } }
//@ start
    proof { assert(vv(v@).take(v@.len() as int) =~= vv(v@)); }
//@ end

// ================================================================ code: the tokenizer
/// the token before and an `=`
pub open spec fn merged(t: J) -> Option<J> {
    match t {
        J::Operation(Operation::Equal) => Some(J::Condition(Condition::EqualTo)),
        J::Condition(Condition::EqualTo) => Some(J::Condition(Condition::SuperEqualTo)),
        J::Char(ReservedChar::ExclamationMark) => Some(J::Condition(Condition::DifferentThan)),
        J::Condition(Condition::DifferentThan) => Some(J::Condition(Condition::SuperDifferentThan)),
        J::Operation(Operation::Divide) => Some(J::Operation(Operation::DivideEqual)),
        J::Operation(Operation::Multiply) => Some(J::Operation(Operation::MultiplyEqual)),
        J::Operation(Operation::Addition) => Some(J::Operation(Operation::AdditionEqual)),
        J::Operation(Operation::Subtract) => Some(J::Operation(Operation::SubtractEqual)),
        J::Operation(Operation::Modulo) => Some(J::Operation(Operation::ModuloEqual)),
        J::Condition(Condition::SuperiorThan) => Some(J::Condition(Condition::SuperiorOrEqualTo)),
        J::Condition(Condition::InferiorThan) => Some(J::Condition(Condition::InferiorOrEqualTo)),
        _ => None,
    }
}
pub open spec fn optext(t: J) -> Seq<char> { match t { J::Operation(o) => otext(o), J::Condition(c) => ctext(c), _ => seq!['!'] } }
pub proof fn lemma_merged(t: J)
    requires merged(t) is Some
    ensures optext(merged(t)->0) == optext(t).push('=')
{
    reveal_strlit("="); reveal_strlit("=="); reveal_strlit("==="); reveal_strlit("!="); reveal_strlit("!=="); reveal_strlit("/"); reveal_strlit("/=");
    reveal_strlit("*"); reveal_strlit("*="); reveal_strlit("+"); reveal_strlit("+="); reveal_strlit("-"); reveal_strlit("-="); reveal_strlit("%"); reveal_strlit("%=");
    reveal_strlit(">"); reveal_strlit(">="); reveal_strlit("<"); reveal_strlit("<=");
    assert(optext(merged(t)->0) =~= optext(t).push('='));
}
pub proof fn lemma_merge(s: Seq<char>, v: Seq<J>, t: J, i: int)
    requires lexed(s, v, i), v.len() > 0, merged(v.last()) == Some(t), 0 <= i < s.len(), s[i] == '='
    ensures lexed(s, v.drop_last().push(t), i + 1)
{
    let (d, l) = (v.drop_last(), v.last());
    let a = last_at(s, v, i);
    assert(tok(s, d, l, a, i));
    lemma_merged(l);
    assert(s.subrange(a, i) =~= optext(l));
    assert(s.subrange(a, i + 1) =~= s.subrange(a, i).push('='));
    assert(tok(s, d, t, a, i + 1));
}
/// two equal characters that are one token
pub proof fn lemma_pair(s: Seq<char>, v: Seq<J>, i: int)
    requires lexed(s, v, i), v.len() > 0, 0 <= i < s.len(), v.last() == J::Char(ReservedChar::Pipe) && s[i] == '|' || v.last() == J::Char(ReservedChar::Ampersand) && s[i] == '&'
    ensures lexed(s, v.drop_last().push(J::Condition(if s[i] == '|' { Condition::Or } else { Condition::And })), i + 1)
{
    reveal_strlit("||"); reveal_strlit("&&");
    let (d, l) = (v.drop_last(), v.last());
    let a = last_at(s, v, i);
    assert(tok(s, d, l, a, i));
    let t = J::Condition(if s[i] == '|' { Condition::Or } else { Condition::And });
    assert(s.subrange(a, i + 1) =~= optext(t));
    assert(tok(s, d, t, a, i + 1));
}
/// the slash of a comment
pub proof fn lemma_slash(s: Seq<char>, v: Seq<J>, i: int)
    requires lexed(s, v, i), v.len() > 0, v.last() == J::Operation(Operation::Divide)
    ensures i > 0, s[i - 1] == '/', lexed(s, v.drop_last(), i - 1), v.drop_last().len() > 0 && v.drop_last().last() == J::Operation(Operation::Divide) ==> false
{
    let a = last_at(s, v, i);
    reveal_strlit("/");
    assert(s.subrange(a, i).len() == 1);
    assert(s.subrange(a, i)[0] == s[a]);
}
/// where the next token starts
pub open spec fn st(s: Seq<char>, start: usize) -> int { if start <= off(s, s.len() as int) { at(s, start as int) } else { s.len() as int } }
/// the tokenizer's state: v is what stands before start, and what stands from there to the i-th character makes a word
pub open spec fn tinv(s: Seq<char>, v: Seq<J>, i: int, start: usize) -> bool {
    &&& 0 <= st(s, start) <= i <= s.len()
    &&& start <= off(s, s.len() as int) ==> is_off(s, start as int)
    &&& start > off(s, s.len() as int) ==> i == s.len()
    &&& lexed(s, v, st(s, start))
    &&& wordable(s, v, st(s, start), i)
    &&& v.len() > 0 ==> !wordy(v.last())
}
//@ fn src/js/token.rs fill_other
//@ spec
    requires start < pos ==> is_off(source@, start as int) && is_off(source@, pos as int) && lexed(source@, vv(old(v)@), at(source@, start as int))
        && wordable(source@, vv(old(v)@), at(source@, start as int), at(source@, pos as int)) && (old(v)@.len() > 0 ==> !wordy(tv(old(v)@.last()))),
    ensures start >= pos ==> final(v)@ == old(v)@,
        start < pos ==> final(v)@.len() == old(v)@.len() + 1 && wordy(tv(final(v)@.last())) && lexed(source@, vv(final(v)@), at(source@, pos as int)),
//@ start
    let ghost (s, v0, a, b) = (source@, vv(v@), at(source@, start as int), at(source@, pos as int));
    let ghost w = s.subrange(a, b);
    proof {
        if start < pos {
            lemma_at_mono(s, start as int, pos as int);
            assert(w.len() == b - a && w.len() > 0 && w[0] == s[a]);
            if digits(w) && (w.len() == 1 || w[0] != '0') { lemma_dec(w); }
        }
    }
//@ end
//@ fn src/js/token.rs handle_equal_sign
//@ spec
    ensures !r ==> final(v)@ == old(v)@,
        r ==> c == ReservedChar::EqualSign && old(v)@.len() > 0 && merged(tv(old(v)@.last())) is Some && vv(final(v)@) == vv(old(v)@).drop_last().push(merged(tv(old(v)@.last()))->0),
//@ end
//@ fn src/js/token.rs check_if_number
//@ spec
    requires is_off(source@, start as int), is_off(source@, pos as int), start <= pos, old(iterator).wf(), old(iterator).src() == source@,
    ensures final(iterator).wf(), final(iterator).src() == source@, final(iterator).idx() == old(iterator).idx(),
//@ end
/// what the tokenizer put in place of what it had
pub open spec fn stepped(s: Seq<char>, v1: Seq<J>, v2: Seq<J>, j: int, b: int) -> bool {
    v2.len() > 0 && !wordy(v2.last()) && ({
        let t = v2.last();
        ||| v2.len() == v1.len() + 1 && v2.drop_last() == v1 && tok(s, v1, t, j, b)
        ||| v2.len() == v1.len() && v2.drop_last() == v1.drop_last() && v1.last() == J::Operation(Operation::Divide) && (t is Comment || t is License) && j > 0 && (s[j - 1] == '/' ==> tok(s, v1.drop_last(), t, j - 1, b))
        ||| v2.len() == v1.len() && v2.drop_last() == v1.drop_last() && b == j + 1 && s[j] == '=' && merged(v1.last()) == Some(t)
        ||| v2.len() == v1.len() && v2.drop_last() == v1.drop_last() && b == j + 1 && (s[j] == '|' && v1.last() == J::Char(ReservedChar::Pipe) && t == J::Condition(Condition::Or)
            || s[j] == '&' && v1.last() == J::Char(ReservedChar::Ampersand) && t == J::Condition(Condition::And))
    })
}
pub proof fn lemma_stepped(s: Seq<char>, v1: Seq<J>, v2: Seq<J>, j: int, b: int)
    requires stepped(s, v1, v2, j, b), lexed(s, v1, j), 0 <= j < s.len()
    ensures lexed(s, v2, b)
{
    let t = v2.last();
    assert(v2 =~= v2.drop_last().push(t));
    if v2.len() == v1.len() {
        if v1.last() == J::Operation(Operation::Divide) { lemma_slash(s, v1, j); }
        if s[j] == '=' && merged(v1.last()) == Some(t) { lemma_merge(s, v1, t, j); }
        if s[j] == '|' && v1.last() == J::Char(ReservedChar::Pipe) || s[j] == '&' && v1.last() == J::Char(ReservedChar::Ampersand) { lemma_pair(s, v1, j); }
    }
}
} // mod lex

pub mod lexm {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::lspec::*;
use super::lex::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, lemma_at, lemma_wid, lemma_off0, lemma_off_len, group_lexed};
//@ fn src/js/token.rs tokenize
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires source@.len() < 0x7fff_ffff,
    ensures match r { Ok(t) => lexed(source@, vv(t.0@), source@.len() as int), Err(_) => deep(source@) },
//@ start
    let ghost s = source@;
    proof { axiom_len(source); assert(off(s, 0) == 0); }
//@ loop 1
    invariant iterator.wf(), iterator.src() == s, tinv(s, vv(v@), iterator.idx(), start),
    decreases s.len() - iterator.idx()
//@ before if let Ok(c) = ReservedChar::try_from(c)
    proof { if st(s, start) <= iterator.idx() - 1 { lemma_off_mono(s, st(s, start), iterator.idx() - 1); } }
//@ before match c
    let ghost (v1, j) = (vv(v@), iterator.idx() - 1);
    assert(lexed(s, v1, j));
//@ before start = pos + 1
    proof {
        let v2 = vv(v@);
        let t = v2.last();
        let b = if t is Char || t is Condition || t is Operation { j + 1 } else { iterator.idx() };
        reveal_strlit("/");
        assert(s.subrange(j, j + 1) =~= seq![s[j]]);
        lemma_useful(v1);
        assert(v2.len() > 0);
        assert(!wordy(t));
        assert(off(s, j) <= off(s, s.len() as int) && off(s, j + 1) <= off(s, s.len() as int) && off(s, iterator.idx()) <= off(s, s.len() as int));
        if v2.len() == v1.len() + 1 {
            assert(v2.drop_last() =~= v1);
            if t is String { assert(tok(s, v1, t, j, b)); assert(pos + 1 == off(s, b)); }
            if t is Regex { assert(tok(s, v1, t, j, b));  assert(pos + 1 == off(s, b)); }
            if t is Comment { assert(false); }
            if t is License { assert(false); }
            if t is Condition { assert(tok(s, v1, t, j, b));  assert(pos + 1 == off(s, b)); }
            if t is Char { assert(tok(s, v1, t, j, b)); assert(pos + 1 == off(s, b)); }
            if t is Operation {
              assert(after(s, v1, t, j));
              assert(otext(t->Operation_0) == s.subrange(j, b));
              if t->Operation_0 == Operation::Divide { assert(!re_at(s,v1,j)); }
              if t->Operation_0 == Operation::DivideEqual { assert(!re_at(s,v1,j)); }
              assert(tok(s, v1, t, j, b)); assert(pos + 1 == off(s, b)); }
        } else {
            assert(v2.len() == v1.len());
            assert(v2.drop_last() =~= v1.drop_last());
            if t is Comment || t is License {
               assert(pos + 1 >= off(s, b));
               assert(v1.last() == J::Operation(Operation::Divide));
               lemma_slash(s, v1, j);
               if t is Comment { assert(tok(s, v1.drop_last(), t, j - 1, b)); }
               if t is License { assert(tok(s, v1.drop_last(), t, j - 1, b)); }
            } else {
               assert(pos + 1 == off(s, b));
               assert(b == j + 1);
               if s[j] == '|' { assert(t == J::Condition(Condition::Or)); assert(v1.last() == J::Char(ReservedChar::Pipe)); }
               else if s[j] == '&' { assert(t == J::Condition(Condition::And)); assert(v1.last() == J::Char(ReservedChar::Ampersand)); }
               else { assert(s[j] == '='); assert(merged(v1.last()) == Some(t)); }
            }
        }
        assert(stepped(s, v1, v2, j, b));
        lemma_stepped(s, v1, v2, j, b);
    }
//@ end
} // mod lexm
