pub mod cspec {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ what cleaning does
/// two tokens that would be read as something else if nothing stood between them
pub open spec fn blank_needed(a: J, b: J) -> bool {
    ||| a == J::Operation(Operation::Addition) && b == J::Operation(Operation::Addition)
    ||| a == J::Operation(Operation::Subtract) && b == J::Operation(Operation::Subtract)
    ||| a == J::Operation(Operation::Divide) && (b is Regex || b is License || b is Comment)
    ||| (a is Number || a is FloatingNumber) && b == J::Char(ReservedChar::Dot)
    ||| a == J::Condition(Condition::InferiorThan) && b == J::Char(ReservedChar::ExclamationMark)
    ||| (a is Keyword || a is Other) && b == J::Char(ReservedChar::Backslash)
}
pub open spec fn semi(t: J) -> bool { t == J::Char(ReservedChar::SemiColon) }
/// a token put after the others, with a blank in between if one stood there and is needed
pub open spec fn put(out: Seq<J>, t: J, skipped: bool) -> Seq<J> {
    if skipped && out.len() > 0 && blank_needed(out.last(), t) { out.push(J::Char(ReservedChar::Space)).push(t) } else { out.push(t) }
}
/// clean_tokens, from the i-th token on
pub open spec fn cl(v: Seq<J>, i: int, out: Seq<J>, skipped: bool) -> Seq<J> decreases v.len() - i {
    if i < 0 || i >= v.len() { out }
    else if idle(v[i]) { cl(v, i + 1, out, true) }
    else if semi(v[i]) && out.len() == 0 { cl(v, i + 1, out, false) }
    else { cl(v, i + 1, put(out, v[i], skipped), false) }
}
/// a `;` after these tokens can be a statement: `while (x);`, `else;`, `a:;`
pub open spec fn stmt_needed(v: Seq<J>) -> bool decreases v.len() {
    if v.len() == 0 { false }
    else if v.last() is Comment || v.last() is License || white(v.last()) { stmt_needed(v.drop_last()) }
    else { v.last() == J::Char(ReservedChar::CloseParenthese) || v.last() == J::Char(ReservedChar::Colon) || v.last() is Keyword }
}
/// the first token from the i-th on that the predicate does not let go, or the end
pub open spec fn nx(v: Seq<J>, p: Seq<bool>, i: int) -> int decreases v.len() - i {
    if i < 0 || i >= v.len() { i } else if idle(v[i]) && p[i] { nx(v, p, i + 1) } else { i }
}
/// clean_tokens_except, from the i-th token on; p[k] is what the predicate says about the k-th
pub open spec fn cle(v: Seq<J>, p: Seq<bool>, i: int, out: Seq<J>, skipped: bool) -> Seq<J> decreases v.len() - i {
    if i < 0 || i >= v.len() { out }
    else if idle(v[i]) && p[i] { cle(v, p, i + 1, out, true) }
    else if semi(v[i]) && out.len() == 0 { cle(v, p, i + 1, if p[i] { out } else { out.push(v[i]) }, false) }
    else if semi(v[i]) {
        let k = nx(v, p, i + 1);
        if k <= i || k >= v.len() { if stmt_needed(out) || !p[i] { out.push(v[i]) } else { out } }
        else if v[k] != J::Char(ReservedChar::CloseCurlyBrace) || stmt_needed(out) || !p[i] { cle(v, p, k + 1, out.push(v[i]).push(v[k]), false) }
        else { cle(v, p, k + 1, out.push(v[k]), false) }
    }
    else { cle(v, p, i + 1, put(out, v[i], skipped), false) }
}
pub open spec fn trues(n: int) -> Seq<bool> { Seq::new(n as nat, |k: int| true) }
pub proof fn lemma_nx(v: Seq<J>, p: Seq<bool>, i: int)
    requires 0 <= i <= v.len(), p.len() == v.len()
    ensures i <= nx(v, p, i) <= v.len(), nx(v, p, i) < v.len() ==> !(idle(v[nx(v, p, i)]) && p[nx(v, p, i)]),
        forall|k: int| i <= k < nx(v, p, i) ==> idle(#[trigger] v[k]) && p[k],
    decreases v.len() - i
{ if i < v.len() && idle(v[i]) && p[i] { lemma_nx(v, p, i + 1); } }
pub proof fn lemma_nx_step(v: Seq<J>, p: Seq<bool>, i: int, k: int)
    requires 0 <= i <= k <= v.len(), p.len() == v.len(), forall|j: int| i <= j < k ==> idle(#[trigger] v[j]) && p[j]
    ensures nx(v, p, i) == nx(v, p, k)
    decreases k - i
{ if i < k { assert(idle(v[i]) && p[i]); lemma_nx_step(v, p, i + 1, k); } }
/// cleaning skips to the next token
pub proof fn lemma_cl_skip(v: Seq<J>, i: int, out: Seq<J>, sk: bool)
    requires 0 <= i <= v.len()
    ensures cl(v, i, out, sk) == cl(v, nx(v, trues(v.len() as int), i), out, sk || nx(v, trues(v.len() as int), i) > i)
    decreases v.len() - i
{
    let p = trues(v.len() as int);
    lemma_nx(v, p, i);
    if i < v.len() && idle(v[i]) { lemma_cl_skip(v, i + 1, out, true); lemma_nx(v, p, i + 1); }
}
pub proof fn lemma_cle_skip(v: Seq<J>, p: Seq<bool>, i: int, out: Seq<J>, sk: bool)
    requires 0 <= i <= v.len(), p.len() == v.len()
    ensures cle(v, p, i, out, sk) == cle(v, p, nx(v, p, i), out, sk || nx(v, p, i) > i)
    decreases v.len() - i
{
    lemma_nx(v, p, i);
    if i < v.len() && idle(v[i]) && p[i] { lemma_cle_skip(v, p, i + 1, out, true); lemma_nx(v, p, i + 1); }
}

// ================================================================ S03, over the specification
/// where each token of the result comes from: its index, or -1 for a blank that was put in
pub struct O { pub t: J, pub from: int }
pub open spec fn ts(o: Seq<O>) -> Seq<J> { Seq::new(o.len(), |k: int| o[k].t) }
pub open spec fn put_o(out: Seq<O>, t: J, i: int, skipped: bool) -> Seq<O> {
    if skipped && out.len() > 0 && blank_needed(out.last().t, t) { out.push(O { t: J::Char(ReservedChar::Space), from: -1 }).push(O { t, from: i }) } else { out.push(O { t, from: i }) }
}
pub open spec fn cl_o(v: Seq<J>, i: int, out: Seq<O>, skipped: bool) -> Seq<O> decreases v.len() - i {
    if i < 0 || i >= v.len() { out }
    else if idle(v[i]) { cl_o(v, i + 1, out, true) }
    else if semi(v[i]) && out.len() == 0 { cl_o(v, i + 1, out, false) }
    else { cl_o(v, i + 1, put_o(out, v[i], i, skipped), false) }
}
pub open spec fn cle_o(v: Seq<J>, p: Seq<bool>, i: int, out: Seq<O>, skipped: bool) -> Seq<O> decreases v.len() - i {
    if i < 0 || i >= v.len() { out }
    else if idle(v[i]) && p[i] { cle_o(v, p, i + 1, out, true) }
    else if semi(v[i]) && out.len() == 0 { cle_o(v, p, i + 1, if p[i] { out } else { out.push(O { t: v[i], from: i }) }, false) }
    else if semi(v[i]) {
        let k = nx(v, p, i + 1);
        if k <= i || k >= v.len() { if stmt_needed(ts(out)) || !p[i] { out.push(O { t: v[i], from: i }) } else { out } }
        else if v[k] != J::Char(ReservedChar::CloseCurlyBrace) || stmt_needed(ts(out)) || !p[i] { cle_o(v, p, k + 1, out.push(O { t: v[i], from: i }).push(O { t: v[k], from: k }), false) }
        else { cle_o(v, p, k + 1, out.push(O { t: v[k], from: k }), false) }
    }
    else { cle_o(v, p, i + 1, put_o(out, v[i], i, skipped), false) }
}
pub broadcast proof fn lemma_ts_push(o: Seq<O>, x: O)
    ensures #[trigger] ts(o.push(x)) == ts(o).push(x.t)
{ assert(ts(o.push(x)) =~= ts(o).push(x.t)); }
pub proof fn lemma_cl_o(v: Seq<J>, i: int, out: Seq<O>, sk: bool)
    ensures ts(cl_o(v, i, out, sk)) == cl(v, i, ts(out), sk)
    decreases v.len() - i
{
    broadcast use lemma_ts_push;
    if i < 0 || i >= v.len() {}
    else if idle(v[i]) { lemma_cl_o(v, i + 1, out, true); }
    else if semi(v[i]) && out.len() == 0 { lemma_cl_o(v, i + 1, out, false); }
    else { lemma_cl_o(v, i + 1, put_o(out, v[i], i, sk), false); }
}
pub proof fn lemma_cle_o(v: Seq<J>, p: Seq<bool>, i: int, out: Seq<O>, sk: bool)
    ensures ts(cle_o(v, p, i, out, sk)) == cle(v, p, i, ts(out), sk)
    decreases v.len() - i
{
    broadcast use lemma_ts_push;
    if i < 0 || i >= v.len() {}
    else if idle(v[i]) && p[i] { lemma_cle_o(v, p, i + 1, out, true); }
    else if semi(v[i]) && out.len() == 0 { lemma_cle_o(v, p, i + 1, if p[i] { out } else { out.push(O { t: v[i], from: i }) }, false); }
    else if semi(v[i]) {
        let k = nx(v, p, i + 1);
        if k <= i || k >= v.len() {}
        else if v[k] != J::Char(ReservedChar::CloseCurlyBrace) || stmt_needed(ts(out)) || !p[i] { lemma_cle_o(v, p, k + 1, out.push(O { t: v[i], from: i }).push(O { t: v[k], from: k }), false); }
        else { lemma_cle_o(v, p, k + 1, out.push(O { t: v[k], from: k }), false); }
    }
    else { lemma_cle_o(v, p, i + 1, put_o(out, v[i], i, sk), false); }
}
/// a blank that was put in stands between two tokens that need it and had something between them
pub open spec fn blank_ok(o: Seq<O>, k: int) -> bool {
    o[k].from < 0 ==> o[k].t == J::Char(ReservedChar::Space) && 0 < k && k + 1 < o.len()
            && o[k - 1].from >= 0 && o[k + 1].from > o[k - 1].from + 1 && blank_needed(o[k - 1].t, o[k + 1].t)
}
/// two tokens that would be read as something else stand next to each other only if they did before
pub open spec fn apart_ok(o: Seq<O>, k: int) -> bool {
    o[k].from >= 0 && o[k + 1].from >= 0 && blank_needed(o[k].t, o[k + 1].t) ==> o[k + 1].from == o[k].from + 1
}
/// o is what is left of the first n tokens: the ones that stay keep their order and are unchanged,
/// `gone(k)` holds for the ones that are left out, and a blank is put in only between two tokens
/// that need it and had something between them
pub open spec fn left(v: Seq<J>, n: int, o: Seq<O>, gone: spec_fn(int) -> bool) -> bool {
    &&& forall|k: int| 0 <= k < o.len() ==> ((#[trigger] o[k]).from == -1 || 0 <= o[k].from < n && o[k].t == v[o[k].from])
    &&& forall|k: int, l: int| 0 <= k < l < o.len() && (#[trigger] o[k]).from >= 0 && (#[trigger] o[l]).from >= 0 ==> o[k].from < o[l].from
    &&& forall|k: int| 0 <= k < o.len() ==> #[trigger] blank_ok(o, k)
    &&& forall|k: int| 0 <= k < o.len() - 1 ==> #[trigger] apart_ok(o, k)
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] gone(i)) || exists|k: int| 0 <= k < o.len() && (#[trigger] o[k]).from == i
}
/// what clean_tokens may leave out
pub open spec fn gone_cl(v: Seq<J>) -> spec_fn(int) -> bool {
    |i: int| 0 <= i < v.len() && (idle(v[i]) || semi(v[i]) && forall|j: int| 0 <= j < i ==> idle(#[trigger] v[j]) || semi(v[j]))
}
/// what clean_tokens_except may leave out: nothing that the predicate spares
pub open spec fn gone_cle(v: Seq<J>, p: Seq<bool>) -> spec_fn(int) -> bool {
    |i: int| 0 <= i < v.len() && p[i] && (idle(v[i]) || semi(v[i]))
}
pub open spec fn is_gap(v: Seq<J>, g: spec_fn(int) -> bool, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> #[trigger] g(j) }
pub proof fn lemma_left_push(v: Seq<J>, n: int, m: int, o: Seq<O>, g: spec_fn(int) -> bool, sk: bool)
    requires left(v, n, o, g), 0 <= n <= m < v.len(), is_gap(v, g, n, m), sk ==> n < m,
        o.len() > 0 ==> o.last().from == n - 1 && (n < m ==> sk || !blank_needed(o.last().t, v[m]))
    ensures left(v, m + 1, put_o(o, v[m], m, sk), g), put_o(o, v[m], m, sk).last().from == m
{
    let r = put_o(o, v[m], m, sk);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] blank_ok(r, k) by {
        if k < o.len() { assert(blank_ok(o, k)); assert(r[k] == o[k]); if o[k].from < 0 { assert(r[k - 1] == o[k - 1]); assert(r[k + 1] == o[k + 1]); } }
        else if r[k].from < 0 { assert(k == o.len()); assert(blank_ok(o, o.len() - 1)); assert(r[k - 1] == o.last()); assert(r[k + 1].from == m); assert(r[k + 1].t == v[m]); }
    }
    assert forall|k: int| 0 <= k < r.len() - 1 implies #[trigger] apart_ok(r, k) by {
        if k < o.len() - 1 { assert(apart_ok(o, k)); assert(r[k] == o[k]); assert(r[k + 1] == o[k + 1]); }
    }
    assert forall|i: int| 0 <= i < m + 1 implies (#[trigger] g(i)) || exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).from == i by {
        if i == m { assert(r[r.len() - 1].from == m); }
        else if i < n && !g(i) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).from == i; assert(r[k].from == i); }
    }
}
pub proof fn lemma_left_skip(v: Seq<J>, n: int, m: int, o: Seq<O>, g: spec_fn(int) -> bool)
    requires left(v, n, o, g), 0 <= n <= m <= v.len(), is_gap(v, g, n, m)
    ensures left(v, m, o, g)
{
    assert forall|i: int| 0 <= i < m implies (#[trigger] g(i)) || exists|k: int| 0 <= k < o.len() && (#[trigger] o[k]).from == i by {
        if i < n && !g(i) { let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).from == i; assert(o[k].from == i); }
    }
}
pub proof fn lemma_left_cl(v: Seq<J>, n: int, i: int, out: Seq<O>, sk: bool)
    requires left(v, n, out, gone_cl(v)), 0 <= n <= i <= v.len(), is_gap(v, gone_cl(v), n, i), sk == (n < i), out.len() > 0 ==> out.last().from == n - 1,
        out.len() == 0 ==> forall|j: int| 0 <= j < i ==> idle(#[trigger] v[j]) || semi(v[j])
    ensures left(v, v.len() as int, cl_o(v, i, out, sk), gone_cl(v))
    decreases v.len() - i
{
    if i >= v.len() { lemma_left_skip(v, n, i, out, gone_cl(v)); }
    else if idle(v[i]) { lemma_left_cl(v, n, i + 1, out, true); }
    else if semi(v[i]) && out.len() == 0 { lemma_left_skip(v, n, i + 1, out, gone_cl(v)); lemma_left_cl(v, i + 1, i + 1, out, false); }
    else { lemma_left_push(v, n, i, out, gone_cl(v), sk); lemma_left_cl(v, i + 1, i + 1, put_o(out, v[i], i, sk), false); }
}
pub proof fn lemma_left_cle(v: Seq<J>, p: Seq<bool>, n: int, i: int, out: Seq<O>, sk: bool)
    requires p.len() == v.len(), left(v, n, out, gone_cle(v, p)), 0 <= n <= i <= v.len(), is_gap(v, gone_cle(v, p), n, i), sk == (n < i), out.len() > 0 ==> out.last().from == n - 1
    ensures left(v, v.len() as int, cle_o(v, p, i, out, sk), gone_cle(v, p))
    decreases v.len() - i
{
    let g = gone_cle(v, p);
    if i >= v.len() { lemma_left_skip(v, n, i, out, g); }
    else if idle(v[i]) && p[i] { assert(g(i)); lemma_left_cle(v, p, n, i + 1, out, true); }
    else if semi(v[i]) && out.len() == 0 {
        if p[i] { assert(g(i)); lemma_left_skip(v, n, i + 1, out, g); lemma_left_cle(v, p, i + 1, i + 1, out, false); }
        else { lemma_left_push(v, n, i, out, g, false); lemma_left_cle(v, p, i + 1, i + 1, out.push(O { t: v[i], from: i }), false); }
    }
    else if semi(v[i]) {
        let k = nx(v, p, i + 1);
        lemma_nx(v, p, i + 1);
        assert forall|j: int| i + 1 <= j < k implies #[trigger] g(j) by { let t = v[j]; assert(idle(t)); assert(p[j]); }
        let keep = out.push(O { t: v[i], from: i });
        lemma_left_push(v, n, i, out, g, false);
        if p[i] { assert(g(i)); }
        if k >= v.len() {
            if stmt_needed(ts(out)) || !p[i] { lemma_left_skip(v, i + 1, k, keep, g); } else { assert(is_gap(v, g, n, k)); lemma_left_skip(v, n, k, out, g); }
        } else if v[k] != J::Char(ReservedChar::CloseCurlyBrace) || stmt_needed(ts(out)) || !p[i] {
            lemma_left_push(v, i + 1, k, keep, g, false);
            lemma_left_cle(v, p, k + 1, k + 1, keep.push(O { t: v[k], from: k }), false);
        } else {
            assert(is_gap(v, g, n, k));
            lemma_left_push(v, n, k, out, g, false);
            lemma_left_cle(v, p, k + 1, k + 1, out.push(O { t: v[k], from: k }), false);
        }
    }
    else { lemma_left_push(v, n, i, out, g, sk); lemma_left_cle(v, p, i + 1, i + 1, put_o(out, v[i], i, sk), false); }
}
/// S03, for clean_tokens
pub proof fn prop_clean(v: Seq<J>)
    ensures ({ let o = cl_o(v, 0, Seq::empty(), false); ts(o) == cl(v, 0, Seq::empty(), false) && left(v, v.len() as int, o, gone_cl(v)) })
{
    lemma_cl_o(v, 0, Seq::empty(), false);
    assert(ts(Seq::<O>::empty()) =~= Seq::<J>::empty());
    lemma_left_cl(v, 0, 0, Seq::empty(), false);
}
/// S03, for clean_tokens_except
pub proof fn prop_clean_except(v: Seq<J>, p: Seq<bool>)
    requires p.len() == v.len()
    ensures ({ let o = cle_o(v, p, 0, Seq::empty(), false); ts(o) == cle(v, p, 0, Seq::empty(), false) && left(v, v.len() as int, o, gone_cle(v, p)) })
{
    lemma_cle_o(v, p, 0, Seq::empty(), false);
    assert(ts(Seq::<O>::empty()) =~= Seq::<J>::empty());
    lemma_left_cle(v, p, 0, 0, Seq::empty(), false);
}
} // mod cspec

pub mod clean {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtok::*;
use super::cspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use group_vv;

// ================================================================ trusted: Vec's iterators
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct IntoIter<T> { x: Vec<T> }
impl<T> IntoIter<T> {
    pub uninterp spec fn src(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).src() == old(self).src(), 0 <= old(self).idx() <= old(self).src().len(),
            old(self).idx() < old(self).src().len() ==> r == Some(old(self).src()[old(self).idx()]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).src().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: IntoIter<T>) ensures r.src() == v@, r.idx() == 0 { unimplemented!() }
// ================================================================ code
//@ rw tokens . 0 . into_iter ( ) =>> vx_into_iter(tokens.0)
//@ rw tokens . into_iter ( ) =>> vx_into_iter(tokens.0)
//@ rw for $t in it =>> while let Some($t) = it.next()
//@ rw for $t in v . iter ( ) . rev ( ) =>> let mut __it1 = vx_rev(v); while let Some($t) = __it1.next()
//@ rw v . last ( ) . is_some_and ( | $p | $$b ) =>> (match v.last() { Some($p) => $$b, None => false })
//@ rw v . into ( ) =>> Tokens::from(v)
//@ rw * next_token != Some ( & $$x ) =>> ! vx_is(*next_token, &$$x)
//@ rw * next_token == Some ( & $$x ) =>> vx_is(*next_token, &$$x)
//@ rw IntoIter < Token < 'a > > =>> IntoIter<Token<'a>>

pub fn vx_is<'a, 'b, 'c>(n: Option<&Token<'a>>, t: &Token<'b>) -> (r: bool)
    ensures r == (n is Some && tv(*n->0) == tv(*t))
{ match n { Some(x) => *x == *t, None => false } }

//@ fn src/js/token.rs impl=Tokens trait=From<Vec<Token<'a>>> from
//@ spec
    ensures r.0@ == v@,
//@ end
//@ fn src/js/utils.rs need_blank
//@ spec
    ensures r == blank_needed(tv(*prev), tv(*next)),
//@ end
//@ fn src/js/utils.rs get_next
//@ spec
    requires 0 <= old(it).idx() <= old(it).src().len(),
    ensures final(it).src() == old(it).src(),
        ({ let v = vv(old(it).src());
           let k = nx(v, trues(v.len() as int), old(it).idx());
           if k >= v.len() { r is None && final(it).idx() == v.len() }
           else { r is Some && tv(r->0) == v[k] && final(it).idx() == k + 1 && *final(skipped) == (k > old(it).idx()) } }),
//@ start
    let ghost v = vv(it.src());
    let ghost i0 = it.idx();
//@ loop 1
    invariant it.src() == old(it).src(), v == vv(it.src()), i0 == old(it).idx(), 0 <= i0 <= it.idx() <= v.len(), *skipped == (it.idx() > i0),
        nx(v, trues(v.len() as int), i0) == nx(v, trues(v.len() as int), it.idx()),
    ensures it.idx() == v.len(),
    decreases v.len() - it.idx()
//@ end
//@ fn src/js/utils.rs clean_tokens
//@ spec
    ensures vv(r.0@) == cl(vv(tokens.0@), 0, Seq::empty(), false),
//@ start
    let ghost s = vv(tokens.0@);
//@ loop 1
    invariant vv(it.src()) == s, 0 <= it.idx() <= s.len(), cl(s, 0, Seq::empty(), false) == cl(s, it.idx(), vv(v@), false),
    ensures cl(s, 0, Seq::empty(), false) == vv(v@),
    decreases s.len() - it.idx()
//@ loop 1 start
    proof { lemma_cl_skip(s, it.idx(), vv(v@), false); lemma_nx(s, trues(s.len() as int), it.idx()); }
//@ end
//@ fn src/js/utils.rs clean_token
//@ spec
    ensures r == !(idle(tv(*token)) || semi(tv(*token)) && next_token is Some && tv(*(next_token->0)) == J::Char(ReservedChar::CloseCurlyBrace)),
//@ end

// ================================================================ the predicate
/// the predicate can be asked about every token and always gives the same answer
pub open spec fn pure_pred<'a, F: Fn(&Token<'a>) -> bool>(f: &F) -> bool {
    &&& forall|t: Token<'a>| #[trigger] f.requires((&t,))
    &&& forall|t: Token<'a>| !(#[trigger] f.ensures((&t,), true) && f.ensures((&t,), false))
}
pub open spec fn says<'a, F: Fn(&Token<'a>) -> bool>(f: &F, s: Seq<Token<'a>>) -> Seq<bool> { Seq::new(s.len(), |k: int| f.ensures((&s[k],), true)) }

//@ fn src/js/utils.rs get_next_except
//@ spec
    requires 0 <= old(it).idx() <= old(it).src().len(), pure_pred(f)
    ensures final(it).src() == old(it).src(),
        ({ let v = vv(old(it).src());
           let k = nx(v, says(f, old(it).src()), old(it).idx());
           if k >= v.len() { r is None && final(it).idx() == v.len() }
           else { r is Some && r->0 == old(it).src()[k] && final(it).idx() == k + 1 && *final(skipped) == (k > old(it).idx()) } }),
//@ start
    let ghost s = it.src();
    let ghost v = vv(s);
    let ghost p = says(f, s);
    let ghost i0 = it.idx();
//@ loop 1
    invariant it.src() == s, s == old(it).src(), v == vv(s), p == says(f, s), pure_pred(f), i0 == old(it).idx(), 0 <= i0 <= it.idx() <= v.len(), *skipped == (it.idx() > i0),
        nx(v, p, i0) == nx(v, p, it.idx()),
    ensures it.idx() == v.len(),
    decreases v.len() - it.idx()
//@ end
//@ fn src/js/utils.rs needs_statement
//@ spec
    ensures r == stmt_needed(vv(v@)),
//@ loop 1
    invariant __it1.s@ == v@, __it1.n <= v@.len(), stmt_needed(vv(v@)) == stmt_needed(vv(v@).take(__it1.n as int)),
    ensures __it1.n == 0,
    decreases __it1.n
//@ loop 1 start
    proof { let t = vv(v@).take(__it1.n as int); if __it1.n > 0 { assert(t.drop_last() =~= vv(v@).take(__it1.n - 1)); assert(t.last() == vv(v@)[__it1.n - 1]); } }
//@ start
    proof { assert(vv(v@).take(v@.len() as int) =~= vv(v@)); }
//@ end
//@ fn src/js/utils.rs clean_tokens_except
//@ spec
    requires pure_pred(&f)
    ensures vv(r.0@) == cle(vv(tokens.0@), says(&f, tokens.0@), 0, Seq::empty(), false),
//@ start
    let ghost t0 = tokens.0@;
    let ghost s = vv(t0);
    let ghost p = says(&f, t0);
//@ loop 1
    invariant it.src() == t0, s == vv(t0), p == says(&f, t0), pure_pred(&f), 0 <= it.idx() <= s.len(), cle(s, p, 0, Seq::empty(), false) == cle(s, p, it.idx(), vv(v@), false),
    ensures cle(s, p, 0, Seq::empty(), false) == vv(v@),
    decreases s.len() - it.idx()
//@ loop 1 start
    proof { lemma_cle_skip(s, p, it.idx(), vv(v@), false); lemma_nx(s, p, it.idx()); if nx(s, p, it.idx()) < s.len() { lemma_nx(s, p, nx(s, p, it.idx()) + 1); } }
//@ end
//@ fn src/js/utils.rs clean_token_except
//@ spec
    requires pure_pred(f)
    ensures ({ let plain = !(idle(tv(*token)) || semi(tv(*token)) && next_token is Some && tv(*(next_token->0)) == J::Char(ReservedChar::CloseCurlyBrace));
        r == (plain || !f.ensures((token,), true)) }),
//@ end
} // mod clean
