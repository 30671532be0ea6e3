//@ include js_types.vs
//@ include js_text.vs
//@ include js_clean.vs
//@ include js_print.vs
//@ include js_lex.vs
pub mod tools {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::out::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::cspec::*;
use super::pspec::*;
use super::clean::*;
use super::disp::*;
use super::lspec::*;
use super::lexm::*;
broadcast use group_vv;
//@ rw token :: Tokens =>> Tokens
//@ rw token :: tokenize =>> tokenize
//@ rw crate :: js :: clean_tokens =>> clean_tokens
//@ type src/js/tools.rs Minified
//@ fn src/js/token.rs impl=Tokens apply
//@ spec
    requires func.requires((self,)),
    ensures func.ensures((self,), r),
//@ end
//@ fn src/js/tools.rs simple_minify
//@ spec
    requires source@.len() < 0x7fff_ffff,
    ensures match r { Ok(t) => lexed(source@, vv(t.0@), source@.len() as int), Err(_) => deep(source@) },
//@ end
//@ fn src/js/tools.rs minify
//@ spec
    requires source@.len() < 0x7fff_ffff,
    ensures match r { Ok(m) => exists|v: Seq<J>| lexed(source@, v, source@.len() as int) && vv(m.0.0@) == #[trigger] cl(v, 0, Seq::empty(), false), Err(_) => deep(source@) },
//@ end
//@ fn src/js/tools.rs impl=Minified write
//@ spec
    ensures wrote(old(w).out(), final(w).out(), all(vv(self.0.0@)), r is Ok),
//@ end
//@ fn src/js/tools.rs impl=Minified trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), all(vv(self.0.0@)), r is Ok),
//@ end
} // mod tools

pub mod prop {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtxt::*;
use super::lspec::*;
use super::cspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};
// ================================================================ S02
/// what the token is printed as is the piece x of the source, but for the line end after a line
/// comment, a carriage return, the end of an unclosed comment, and the flags of a regular expression (a set)
pub open spec fn is_piece(t: J, x: Seq<char>) -> bool {
    match t {
        J::Char(c) => x.len() == 1 && is_rc(c, x[0]),
        J::Comment(y) => x.len() >= 2 && y.len() + 2 <= x.len() && x.subrange(2, y.len() as int + 2) == y && x[0] == '/'
            && (x[1] == '/' && (x.len() == y.len() + 2 || x.len() == y.len() + 3 && eol(x.last())) || x[1] == '*' && (x.len() == y.len() + 2 || x.len() == y.len() + 4 && x[y.len() as int + 2] == '*' && x.last() == '/')),
        J::License(y) => x.len() >= 3 && y.len() + 3 <= x.len() && x.subrange(3, y.len() as int + 3) == y && x.take(3) == seq!['/', '*', '!']
            && (x.len() == y.len() + 3 || x.len() == y.len() + 5 && x[y.len() as int + 3] == '*' && x.last() == '/'),
        J::Regex { regex, is_global, is_interactive } => x.len() >= regex.len() + 2 && x[0] == '/' && x[regex.len() as int + 1] == '/' && x.subrange(1, regex.len() as int + 1) == regex
            && (forall|k: int| regex.len() + 2 <= k < x.len() ==> #[trigger] x[k] == 'g' || x[k] == 'i')
            && is_global == occ(x, regex.len() as int + 2, x.len() as int, 'g') && is_interactive == occ(x, regex.len() as int + 2, x.len() as int, 'i'),
        J::CreatedVar(_) => false,
        J::CreatedVarDecl(_) => false,
        _ => x == jtext(t),
    }
}
pub proof fn lemma_re_end(s: Seq<char>, i: int, c: bool)
    requires 0 <= i, re_end(s, i, c) is Some
    ensures i <= re_end(s, i, c)->0 < s.len(), s[re_end(s, i, c)->0] == '/'
    decreases s.len() + 2 - i
{
    if i >= s.len() {} else if s[i] == '\\' { lemma_re_end(s, i + 2, c); } else if s[i] == '[' { lemma_re_end(s, i + 1, true); } else if s[i] == ']' { lemma_re_end(s, i + 1, false); }
    else if s[i] == '/' && !c {} else if eol(s[i]) {} else { lemma_re_end(s, i + 1, c); }
}
pub proof fn lemma_fl_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= fl_end(s, i) <= s.len(), forall|k: int| i <= k < fl_end(s, i) ==> #[trigger] s[k] == 'i' || s[k] == 'g'
    decreases s.len() - i
{ if i < s.len() && (s[i] == 'i' || s[i] == 'g') { lemma_fl_end(s, i + 1); } }
pub proof fn lemma_com_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= com_end(s, i) <= s.len(), com_end(s, i) < s.len() ==> com_end(s, i) + 1 < s.len() && s[com_end(s, i)] == '*' && s[com_end(s, i) + 1] == '/'
    decreases s.len() - i
{ if i < s.len() && !(s[i] == '*' && i + 1 < s.len() && s[i + 1] == '/') { lemma_com_end(s, i + 1); } }
pub proof fn lemma_line_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= line_end(s, i) <= s.len(), line_end(s, i) < s.len() ==> eol(s[line_end(s, i)])
    decreases s.len() - i
{ if i < s.len() && !eol(s[i]) { lemma_line_end(s, i + 1); } }
pub proof fn lemma_occ(s: Seq<char>, a: int, l: int, b: int, c: char)
    requires 0 <= a <= l <= b <= s.len()
    ensures occ(s, l, b, c) == occ(s.subrange(a, b), l - a, b - a, c)
{
    reveal(occ);
    let x = s.subrange(a, b);
    if occ(s, l, b, c) { let k = choose|k: int| l <= k < b && #[trigger] s[k] == c; assert(x[k - a] == c); }
    if occ(x, l - a, b - a, c) { let k = choose|k: int| l - a <= k < b - a && #[trigger] x[k] == c; assert(s[k + a] == c); }
}
pub proof fn lemma_piece(s: Seq<char>, v: Seq<J>, t: J, a: int, b: int)
    requires tok(s, v, t, a, b)
    ensures is_piece(t, s.subrange(a, b))
{
    let x = s.subrange(a, b);
    match t {
        J::Comment(y) => {
            if s[a + 1] == '/' { lemma_line_end(s, a + 2); } else { lemma_com_end(s, a + 2); }
            assert(x.subrange(2, y.len() as int + 2) =~= y);
        }
        J::License(y) => { lemma_com_end(s, a + 3); assert(x.subrange(3, y.len() as int + 3) =~= y); assert(x.take(3) =~= seq!['/', '*', '!']); }
        J::Regex { regex, is_global, is_interactive } => {
            let e = re_end(s, a + 1, false)->0;
            lemma_re_end(s, a + 1, false); lemma_fl_end(s, e + 1);
            assert(x.subrange(1, regex.len() as int + 1) =~= regex);
            lemma_occ(s, a, e + 1, b, 'g'); lemma_occ(s, a, e + 1, b, 'i');
            assert forall|k: int| regex.len() + 2 <= k < x.len() implies #[trigger] x[k] == 'g' || x[k] == 'i' by { assert(x[k] == s[a + k]); }
        }
        _ => {}
    }
}
pub open spec fn pieces(s: Seq<char>, v: Seq<J>, p: Seq<int>) -> bool {
    p.len() == v.len() + 1 && p[0] == 0 && p.last() == s.len()
        && forall|k: int| 0 <= k < v.len() ==> #[trigger] at_piece(s, v, p, k)
}
pub open spec fn at_piece(s: Seq<char>, v: Seq<J>, p: Seq<int>, k: int) -> bool { 0 <= p[k] < p[k + 1] <= s.len() && is_piece(v[k], s.subrange(p[k], p[k + 1])) }
/// the tokens are consecutive pieces of the source, without a gap and without an overlap
pub proof fn prop_pieces(s: Seq<char>, v: Seq<J>)
    requires lexed(s, v, s.len() as int)
    ensures exists|p: Seq<int>| #[trigger] pieces(s, v, p)
{
    reveal(lexed);
    let p = choose|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == s.len();
    assert forall|k: int| 0 <= k < v.len() implies #[trigger] at_piece(s, v, p, k) by {
        assert(tok(s, v.take(k), v[k], p[k], p[k + 1]));
        lemma_piece(s, v.take(k), v[k], p[k], p[k + 1]);
    }
    assert(pieces(s, v, p));
}
/// a word is a whole word: there are no two in a row
pub proof fn prop_words(s: Seq<char>, v: Seq<J>, k: int)
    requires lexed(s, v, s.len() as int), 0 < k < v.len()
    ensures !(wordy(v[k - 1]) && wordy(v[k]))
{
    reveal(lexed);
    let p = choose|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == s.len();
    assert(tok(s, v.take(k), v[k], p[k], p[k + 1]));
    assert(v.take(k).last() == v[k - 1]);
}
// ================================================================ S05: what the aggregation into an array relies on
pub proof fn lemma_str_end(s: Seq<char>, i: int, q: char)
    requires 0 <= i, str_end(s, i, q) is Some
    ensures i <= str_end(s, i, q)->0 < s.len(), s[str_end(s, i, q)->0] == q
    decreases s.len() + 2 - i
{ if i >= s.len() {} else if s[i] == '\\' { lemma_str_end(s, i + 2, q); } else if s[i] != q { lemma_str_end(s, i + 1, q); } }
pub proof fn lemma_tpl_end(s: Seq<char>, i: int, d: int)
    requires 0 <= i, tpl(s, i, d) is End
    ensures i <= tpl(s, i, d)->End_0 < s.len(), s[tpl(s, i, d)->End_0] == '`'
    decreases s.len() + 2 - i
{
    if i >= s.len() {} else if s[i] == '\\' { lemma_tpl_end(s, i + 2, d); }
    else if s[i] == '$' && i + 1 < s.len() && s[i + 1] == '{' { match interp(s, i + 1, 0, d) { E::End(k) => if i < k <= s.len() { lemma_tpl_end(s, k, d); }, _ => {} } }
    else if s[i] != '`' { lemma_tpl_end(s, i + 1, d); }
}
/// the strings of a tokenized text begin and end with a quote
pub proof fn prop_quoted(s: Seq<char>, v: Seq<J>)
    requires lexed(s, v, s.len() as int)
    ensures all_quoted(v)
{
    reveal(lexed);
    let p = choose|p: Seq<int>| #[trigger] spans(s, v, p) && p.last() == s.len();
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is String implies quoted(v[i]->String_0) by {
        assert(tok(s, v.take(i), v[i], p[i], p[i + 1]));
        let (a, b) = (p[i], p[i + 1]);
        if s[a] == '`' { lemma_tpl_end(s, a + 1, 0); } else { lemma_str_end(s, a + 1, s[a]); }
    }
}
/// and so do those that are left after clean_tokens
pub proof fn prop_quoted_clean(v: Seq<J>, i: int, out: Seq<J>, skipped: bool)
    requires all_quoted(v), all_quoted(out)
    ensures all_quoted(cl(v, i, out, skipped))
    decreases v.len() - i
{
    if i < 0 || i >= v.len() {}
    else if idle(v[i]) { prop_quoted_clean(v, i + 1, out, true); }
    else if semi(v[i]) && out.len() == 0 { prop_quoted_clean(v, i + 1, out, false); }
    else {
        let o = put(out, v[i], skipped);
        assert forall|k: int| 0 <= k < o.len() && (#[trigger] o[k]) is String implies quoted(o[k]->String_0) by { if k < out.len() { assert(o[k] == out[k]); } }
        prop_quoted_clean(v, i + 1, o, false);
    }
}
} // mod prop
fn main() {}
} // verus!
