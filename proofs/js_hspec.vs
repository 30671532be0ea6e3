pub mod hspec {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ declarations
/// a comment, or a blank that is not a line end
pub open spec fn inline(t: J) -> bool { t is Comment || white(t) && t != J::Char(ReservedChar::Backline) }
/// the first token from the i-th on that is not one of these, or the end
pub open spec fn skip_l(v: Seq<J>, i: int) -> int decreases v.len() - i {
    if i < 0 || i >= v.len() { i } else if inline(v[i]) { skip_l(v, i + 1) } else { i }
}
pub open spec fn skip_i(v: Seq<J>, i: int) -> int decreases v.len() - i {
    if i < 0 || i >= v.len() { i } else if idle(v[i]) { skip_i(v, i + 1) } else { i }
}
/// what can be the value of a variable
pub open spec fn value(t: J) -> bool { t is String || t is Other || t is Regex || t is Number || t is FloatingNumber }
/// a name at a, followed by `=` and a value (whose position it is), or by `,` or `;` (None)
pub open spec fn decl(v: Seq<J>, a: int) -> Option<Option<int>> {
    if !(0 <= a < v.len() && v[a] is Other) { None }
    else {
        let e = skip_l(v, a + 1);
        if e >= v.len() { None }
        else if v[e] == J::Operation(Operation::Equal) {
            let c = skip_i(v, e + 1);
            if c < v.len() && value(v[c]) { Some(Some(c)) } else { None }
        }
        else if v[e] == J::Char(ReservedChar::Comma) || v[e] == J::Char(ReservedChar::SemiColon) { Some(None) }
        else { None }
    }
}
pub open spec fn var_kw(t: J) -> bool { t == J::Keyword(Keyword::Let) || t == J::Keyword(Keyword::Var) }
/// pos is inside a declaration: after `let`, `var` or `,`
pub open spec fn in_decl(v: Seq<J>, pos: int) -> bool {
    exists|j: int| 0 <= j < pos && (var_kw(#[trigger] v[j]) || v[j] == J::Char(ReservedChar::Comma)) && forall|k: int| j < k < pos ==> idle(#[trigger] v[k])
}
pub open spec fn pos_of(r: Option<(usize, Option<usize>)>, a: int, d: Option<int>) -> bool {
    r is Some && (r->0).0 == a && (match d { None => (r->0).1 is None, Some(c) => (r->0).1 is Some && (r->0).1->0 == c })
}
/// what the positions promise
pub open spec fn found(v: Seq<J>, pos: int, r: Option<(usize, Option<usize>)>) -> bool {
    // a position that is given is that of a name, at pos or after it, and of its value
    &&& r is Some ==> pos <= (r->0).0 < v.len() && decl(v, (r->0).0 as int) is Some && pos_of(r, (r->0).0 as int, decl(v, (r->0).0 as int)->0)
    &&& r is Some ==> (var_kw(v[pos]) || v[pos] is Other)
    // the declared name is found
    &&& 0 <= pos < v.len() && var_kw(v[pos]) && decl(v, skip_i(v, pos + 1)) is Some ==> pos_of(r, skip_i(v, pos + 1), decl(v, skip_i(v, pos + 1))->0)
    &&& 0 <= pos < v.len() && in_decl(v, pos) && decl(v, pos) is Some ==> pos_of(r, pos, decl(v, pos)->0)
}
pub proof fn lemma_skip_i(v: Seq<J>, i: int)
    requires 0 <= i <= v.len()
    ensures i <= skip_i(v, i) <= v.len(), forall|k: int| i <= k < skip_i(v, i) ==> idle(#[trigger] v[k]), skip_i(v, i) < v.len() ==> !idle(v[skip_i(v, i)])
    decreases v.len() - i
{ if i < v.len() && idle(v[i]) { lemma_skip_i(v, i + 1); } }
pub proof fn lemma_skip_l(v: Seq<J>, i: int)
    requires 0 <= i <= v.len()
    ensures i <= skip_l(v, i) <= v.len(), forall|k: int| i <= k < skip_l(v, i) ==> inline(#[trigger] v[k]), skip_l(v, i) < v.len() ==> !inline(v[skip_l(v, i)])
    decreases v.len() - i
{ if i < v.len() && inline(v[i]) { lemma_skip_l(v, i + 1); } }
/// what a position of a value promises
pub proof fn prop_found(v: Seq<J>, pos: int, r: Option<(usize, Option<usize>)>)
    requires found(v, pos, r), r is Some, pos >= 0
    ensures ({
        let a = (r->0).0 as int;
        pos <= a < v.len() && v[a] is Other && match (r->0).1 {
            Some(c) => a < c < v.len() && value(v[c as int]) && exists|e: int| a < e < c && #[trigger] v[e] == J::Operation(Operation::Equal)
                && (forall|k: int| a < k < e ==> inline(#[trigger] v[k])) && (forall|k: int| e < k < c ==> idle(#[trigger] v[k])),
            None => exists|e: int| a < e < v.len() && (#[trigger] v[e] == J::Char(ReservedChar::Comma) || v[e] == J::Char(ReservedChar::SemiColon))
                && (forall|k: int| a < k < e ==> inline(#[trigger] v[k])),
        }
    })
{
    let a = (r->0).0 as int;
    lemma_skip_l(v, a + 1);
    let e = skip_l(v, a + 1);
    lemma_skip_i(v, e + 1);
    assert(v[e] == v[e]);
}

// ================================================================ arrays
/// `name = [ ... ]` declared at kw: the elements are the tokens of the brackets
pub open spec fn array_at(v: Seq<J>, name: Seq<char>, kw: int, vals: Seq<usize>, end: int) -> bool {
    let a = skip_i(v, kw + 1);
    let e = skip_i(v, a + 1);
    let b = skip_i(v, e + 1);
    &&& 0 <= kw < a < e < b < end < v.len()
    &&& var_kw(v[kw]) && v[a] == J::Other(name) && v[e] == J::Operation(Operation::Equal) && v[b] == J::Char(ReservedChar::OpenBracket) && v[end] == J::Char(ReservedChar::CloseBracket)
    &&& elems(v, b + 1, end, vals)
}
/// vals are the positions from a to b of what is neither idle nor a `]`; there is no `]`
pub open spec fn elems(v: Seq<J>, a: int, b: int, vals: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < vals.len() ==> a <= (#[trigger] vals[k]) < b && !idle(v[vals[k] as int]) && v[vals[k] as int] != J::Char(ReservedChar::CloseBracket)
    &&& forall|k: int, l: int| 0 <= k < l < vals.len() ==> (#[trigger] vals[k]) < (#[trigger] vals[l])
    &&& forall|i: int| a <= i < b ==> idle(#[trigger] v[i]) || exists|k: int| 0 <= k < vals.len() && (#[trigger] vals[k]) == i
}
pub open spec fn is_array(v: Seq<J>, name: Seq<char>, vals: Seq<usize>, end: int) -> bool { exists|kw: int| #[trigger] array_at(v, name, kw, vals, end) }
// what is known at i, between `var` and `]`
pub open spec fn after_var(v: Seq<J>, kw: int, i: int) -> bool { 0 <= kw < i && var_kw(v[kw]) && skip_i(v, kw + 1) == skip_i(v, i) }
pub open spec fn after_name(v: Seq<J>, name: Seq<char>, kw: int, i: int) -> bool {
    let a = skip_i(v, kw + 1);
    0 <= kw < a < i && var_kw(v[kw]) && v[a] == J::Other(name) && skip_i(v, a + 1) == skip_i(v, i)
}
pub open spec fn after_equal(v: Seq<J>, name: Seq<char>, kw: int, i: int) -> bool {
    let a = skip_i(v, kw + 1);
    let e = skip_i(v, a + 1);
    0 <= kw < a < e < i && var_kw(v[kw]) && v[a] == J::Other(name) && v[e] == J::Operation(Operation::Equal) && skip_i(v, e + 1) == skip_i(v, i)
}
pub open spec fn in_array(v: Seq<J>, name: Seq<char>, kw: int, vals: Seq<usize>, i: int) -> bool {
    let a = skip_i(v, kw + 1);
    let e = skip_i(v, a + 1);
    let b = skip_i(v, e + 1);
    &&& 0 <= kw < a < e < b < i
    &&& var_kw(v[kw]) && v[a] == J::Other(name) && v[e] == J::Operation(Operation::Equal) && v[b] == J::Char(ReservedChar::OpenBracket)
    &&& elems(v, b + 1, i, vals)
}
/// how far the declaration has been read: not at all, `var`, the name, `=`, `[`
pub open spec fn step(v: Seq<J>, name: Seq<char>, i: int, st: int) -> int {
    let keep = if idle(v[i]) { st } else { 0 };
    if st == 1 { if v[i] is Other { if v[i] == J::Other(name) { 2 } else { 0 } } else { keep } }
    else if st == 2 { if v[i] == J::Operation(Operation::Equal) { 3 } else { keep } }
    else if st == 3 { if v[i] == J::Char(ReservedChar::OpenBracket) { 4 } else { keep } }
    else { if var_kw(v[i]) { 1 } else { 0 } }
}
/// the array that get_array finds, a function of the tokens and the name
pub open spec fn find_array(v: Seq<J>, name: Seq<char>, i: int, st: int, vals: Seq<usize>) -> Option<(Seq<usize>, int)> decreases v.len() - i {
    if i < 0 || i >= v.len() { None }
    else if st == 4 {
        if v[i] == J::Char(ReservedChar::CloseBracket) { Some((vals, i)) }
        else { find_array(v, name, i + 1, 4, if idle(v[i]) { vals } else { vals.push(i as usize) }) }
    }
    else { find_array(v, name, i + 1, step(v, name, i, st), vals) }
}
pub open spec fn the_array(v: Seq<J>, name: Seq<char>) -> Option<(Seq<usize>, int)> { find_array(v, name, 0, 0, Seq::empty()) }
pub open spec fn state(var: bool, equal: bool, start: bool, values: bool) -> int { if var { 1 } else if equal { 2 } else if start { 3 } else if values { 4 } else { 0 } }
/// reading the i-th token
pub proof fn lemma_array_step(v: Seq<J>, name: Seq<char>, vals: Seq<usize>, i: int)
    requires 0 <= i < v.len()
    ensures var_kw(v[i]) ==> after_var(v, i, i + 1),
        forall|kw: int| #[trigger] after_var(v, kw, i) ==> if idle(v[i]) { after_var(v, kw, i + 1) } else { v[i] == J::Other(name) ==> after_name(v, name, kw, i + 1) },
        forall|kw: int| #[trigger] after_name(v, name, kw, i) ==> if idle(v[i]) { after_name(v, name, kw, i + 1) } else { v[i] == J::Operation(Operation::Equal) ==> after_equal(v, name, kw, i + 1) },
        forall|kw: int| #[trigger] after_equal(v, name, kw, i) ==> if idle(v[i]) { after_equal(v, name, kw, i + 1) } else { v[i] == J::Char(ReservedChar::OpenBracket) ==> in_array(v, name, kw, Seq::empty(), i + 1) },
        forall|kw: int| #[trigger] in_array(v, name, kw, vals, i) ==>
            if v[i] == J::Char(ReservedChar::CloseBracket) { array_at(v, name, kw, vals, i) }
            else if idle(v[i]) { in_array(v, name, kw, vals, i + 1) }
            else { i <= usize::MAX ==> in_array(v, name, kw, vals.push(i as usize), i + 1) },
{
    assert forall|kw: int| #[trigger] after_equal(v, name, kw, i) && !idle(v[i]) && v[i] == J::Char(ReservedChar::OpenBracket) implies in_array(v, name, kw, Seq::empty(), i + 1) by {
        let a = skip_i(v, kw + 1); let e = skip_i(v, a + 1);
        assert(skip_i(v, e + 1) == i);
    }
    assert forall|kw: int| #[trigger] in_array(v, name, kw, vals, i) && v[i] != J::Char(ReservedChar::CloseBracket) && !idle(v[i]) && i <= usize::MAX implies in_array(v, name, kw, vals.push(i as usize), i + 1) by {
        let a = skip_i(v, kw + 1); let e = skip_i(v, a + 1); let b = skip_i(v, e + 1);
        let w = vals.push(i as usize);
        assert forall|j: int| b + 1 <= j < i + 1 implies idle(#[trigger] v[j]) || exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]) == j by {
            if j == i { assert(w[vals.len() as int] == j); } else if !idle(v[j]) { let k = choose|k: int| 0 <= k < vals.len() && (#[trigger] vals[k]) == j; assert(w[k] == j); }
        }
    }
}
} // mod hspec

