pub mod aspec {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtxt::*;
use super::hspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ names of the source
/// char::is_alphanumeric
pub uninterp spec fn alnum(c: char) -> bool;
pub open spec fn namec(c: char) -> bool { alnum(c) || c == '_' || c == '$' }
/// w is s[a..b], a word of s: nothing that can be part of a name stands beside it
pub open spec fn word_at(s: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& forall|k: int| a <= k < b ==> namec(#[trigger] s[k])
    &&& a > 0 ==> !namec(s[a - 1])
    &&& b < s.len() ==> !namec(s[b])
}
pub open spec fn word_of(s: Seq<char>, w: Seq<char>) -> bool { exists|a: int, b: int| word_at(s, a, b) && w == #[trigger] s.subrange(a, b) }
/// the text of a token that can hold a name; a template holds code
pub open spec fn named(t: J) -> Option<Seq<char>> {
    match t { J::CreatedVarDecl(s) => Some(s), J::CreatedVar(s) => Some(s), J::Other(s) => Some(s), J::String(s) => Some(s), _ => None }
}
/// w is a name that the source uses
pub open spec fn used(v: Seq<J>, w: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && named(#[trigger] v[i]) is Some && word_of(named(v[i])->0, w) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn r_() -> Seq<char> { seq!['r', '_'] }

pub proof fn lemma_used_step(v: Seq<J>, i: int)
    requires 0 <= i < v.len()
    ensures forall|w: Seq<char>| #[trigger] used(v.take(i + 1), w) ==> used(v.take(i), w) || named(v[i]) is Some && word_of(named(v[i])->0, w)
{
    let (x, y) = (v.take(i + 1), v.take(i));
    assert forall|w: Seq<char>| #[trigger] used(x, w) && !(named(v[i]) is Some && word_of(named(v[i])->0, w)) implies used(y, w) by {
        let k = choose|k: int| 0 <= k < x.len() && named(#[trigger] x[k]) is Some && word_of(named(x[k])->0, w);
        assert(y[k] == x[k]);
    }
}
pub broadcast proof fn lemma_starts1(s: Seq<char>, c: char)
    ensures #[trigger] starts(s, seq![c]) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); assert(seq![s[0]][0] == s[0]); assert(seq![c][0] == c); } }

// ================================================================ literals and declarations
pub open spec fn template(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '`' }
/// a string literal that is no template
pub open spec fn lit(t: J) -> bool { t is String && !template(t->String_0) }
/// nothing but the end of the declaration follows the value at c
pub open spec fn whole(v: Seq<J>, c: int) -> bool {
    let e = skip_i(v, c + 1);
    e >= v.len() || v[e] == J::Char(ReservedChar::Comma) || v[e] == J::Char(ReservedChar::SemiColon)
}
/// the variable at a is declared with the literal s, which is at c
pub open spec fn declared(v: Seq<J>, s: Seq<char>, a: int, c: int) -> bool {
    &&& 0 <= a < c < v.len() && v[a] is Other && starts(v[a]->Other_0, r_())
    &&& decl(v, a) == Some(Some(c)) && v[c] == J::String(s) && whole(v, c)
}

pub broadcast proof fn lemma_decl(v: Seq<J>, a: int)
    ensures (#[trigger] decl(v, a)) is Some ==> 0 <= a < v.len() && v[a] is Other && (decl(v, a)->0 is Some ==> a < decl(v, a)->0->0 < v.len())
{
    if 0 <= a < v.len() && v[a] is Other { lemma_skip_l(v, a + 1); let e = skip_l(v, a + 1); if e < v.len() { lemma_skip_i(v, e + 1); } }
}

// ================================================================ aggregation into variables
pub struct D { pub name: Seq<char>, pub lit: Seq<char> }
pub open spec fn hd(d: Seq<D>, k: int) -> Seq<J> decreases k {
    if k <= 0 { Seq::empty() }
    else { hd(d, k - 1).push(if k == 1 { J::Keyword(Keyword::Var) } else { J::Char(ReservedChar::Comma) }).push(J::CreatedVarDecl(d[k - 1].name + seq!['='] + d[k - 1].lit)) }
}
/// `var name=literal,name=literal;` and the separation token
pub open spec fn front(d: Seq<D>, sep: Option<J>) -> Seq<J> {
    let h = if d.len() == 0 { Seq::empty() } else { hd(d, d.len() as int).push(J::Char(ReservedChar::SemiColon)) };
    match sep { Some(t) => h.push(t), None => h }
}
/// o stands for the i-th token: it is that token, or a variable that is declared with that literal
pub open spec fn stands(v: Seq<J>, d: Seq<D>, i: int, o: J) -> bool {
    ||| o == v[i]
    ||| lit(v[i]) && exists|k: int| 0 <= k < d.len() && o == J::CreatedVar((#[trigger] d[k]).name) && v[i] == J::String(d[k].lit)
    ||| lit(v[i]) && exists|a: int, c: int| #[trigger] declared(v, v[i]->String_0, a, c) && c != i && o == v[a]
}
/// the declarations: every name differs from the others and from those of the source; every value is a literal of the source
pub open spec fn fresh(v: Seq<J>, d: Seq<D>) -> bool {
    &&& forall|k: int| 0 <= k < d.len() ==> starts((#[trigger] d[k]).name, r_()) && !used(v, d[k].name) && lit(J::String(d[k].lit)) && v.contains(J::String(d[k].lit))
    &&& forall|k: int, l: int| 0 <= k < l < d.len() ==> (#[trigger] d[k]).name != (#[trigger] d[l]).name
}
/// S05: o is the aggregation of v with the declarations d
pub open spec fn aggr(v: Seq<J>, o: Seq<J>, sep: Option<J>, d: Seq<D>) -> bool {
    let f = front(d, sep);
    &&& fresh(v, d)
    &&& o.len() == f.len() + v.len() && o.take(f.len() as int) == f
    &&& forall|i: int| 0 <= i < v.len() ==> stands(v, d, i, #[trigger] o[f.len() + i])
}
pub open spec fn aggregated(v: Seq<J>, o: Seq<J>, sep: Option<J>) -> bool { exists|d: Seq<D>| #[trigger] aggr(v, o, sep, d) }

// ================================================================ aggregation into an array
/// what is between the quotes
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
pub open spec fn dq(x: Seq<char>) -> Seq<char> { seq!['"'] + x + seq!['"'] }
/// e is a literal of the source, or one with the same text between double quotes, if it has none itself
pub open spec fn elem_of(v: Seq<J>, e: Seq<char>) -> bool {
    exists|i: int| 0 <= i < v.len() && lit(#[trigger] v[i]) && inner(e) == inner(v[i]->String_0) && (e == v[i]->String_0 || e == dq(inner(e)) && !inner(e).contains('"'))
}
/// the elements from the a-th on, with commas between them, and one before the first if there are others
pub open spec fn list(c: Seq<Seq<char>>, a: int, more: bool) -> Seq<J> decreases c.len() - a {
    if a < 0 || a >= c.len() { Seq::empty() }
    else { (if a == 0 && !more { Seq::empty() } else { seq![J::Char(ReservedChar::Comma)] }) + cons(J::CreatedVar(c[a]), list(c, a + 1, more)) }
}
pub open spec fn at_index(name: Seq<char>, k: int) -> J { J::CreatedVar(name + seq!['['] + dec(k) + seq![']']) }
/// o stands for the i-th token: it is that token, or the element of the array that has the same text
pub open spec fn stands_in(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, i: int, o: J) -> bool {
    o == v[i] || lit(v[i]) && exists|k: int| 0 <= k < el.len() && o == #[trigger] at_index(name, k) && inner(el[k]) == inner(v[i]->String_0)
}
/// the texts of the elements of an array of literals
pub open spec fn texts(v: Seq<J>, vals: Seq<usize>) -> Seq<Seq<char>> { Seq::new(((vals.len() + 1) / 2) as nat, |k: int| v[vals[2 * k] as int]->String_0) }
/// the elements are literals with commas between them
pub open spec fn lits_only(v: Seq<J>, vals: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < vals.len() ==> if k % 2 == 0 { lit(v[(#[trigger] vals[k]) as int]) } else { v[vals[k] as int] == J::Char(ReservedChar::Comma) }
    &&& vals.len() == 0 || vals.len() % 2 == 1
}
/// what is put in front of the tokens when there is no array yet
pub open spec fn array_front(name: Seq<char>, c: Seq<Seq<char>>, sep: Option<J>) -> Seq<J> {
    let f = seq![J::CreatedVarDecl("var "@ + name + "="@), J::Char(ReservedChar::OpenBracket)] + list(c, 0, false)
        + seq![J::Char(ReservedChar::CloseBracket), J::Char(ReservedChar::SemiColon)];
    match sep { Some(t) => f.push(t), None => f }
}
/// the i-th token was replaced, which is allowed: the filter says so, and it is no element of the array
pub open spec fn may(v: Seq<J>, t: Seq<J>, own: Seq<usize>, ok: spec_fn(int) -> bool) -> bool {
    forall|i: int| 0 <= i < v.len() && (#[trigger] t[i]) != v[i] ==> ok(i) && forall|k: int| 0 <= k < own.len() ==> #[trigger] own[k] != i
}
/// S05: c was put into the array, and t are the tokens of the source after that
pub open spec fn arr(v: Seq<J>, t: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, own: Seq<usize>, ok: spec_fn(int) -> bool, c: Seq<Seq<char>>) -> bool {
    &&& t.len() == v.len() && may(v, t, own, ok)
    &&& forall|i: int| 0 <= i < v.len() ==> stands_in(v, name, el + c, i, #[trigger] t[i])
    &&& forall|k: int| 0 <= k < c.len() ==> elem_of(v, #[trigger] c[k])
    // no text is put in twice
    &&& forall|k: int, l: int| 0 <= k < el.len() + c.len() && el.len() <= l < el.len() + c.len() && k != l ==> inner(#[trigger] (el + c)[k]) != inner(#[trigger] (el + c)[l])
}
/// S05: o is the aggregation of v into an array
pub open spec fn arrayed(v: Seq<J>, o: Seq<J>, name: Seq<char>, sep: Option<J>, ok: spec_fn(int) -> bool) -> bool {
    match the_array(v, name) {
        Some((vals, end)) => is_array(v, name, vals, end) && if lits_only(v, vals) {
            exists|t: Seq<J>, c: Seq<Seq<char>>| #[trigger] arr(v, t, name, texts(v, vals), vals, ok, c)
                && o == t.take(end) + list(c, 0, vals.len() > 0) + t.skip(end)
        } else { o == v },
        None => exists|t: Seq<J>, c: Seq<Seq<char>>| #[trigger] arr(v, t, name, Seq::empty(), Seq::empty(), ok, c)
            && o == if c.len() == 0 { t } else { array_front(name, c, sep) + t },
    }
}
} // mod aspec
