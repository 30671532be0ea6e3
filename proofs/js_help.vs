pub mod help {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtok::*;
use super::hspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use group_vv;

// ================================================================ code: replacing
/// the i-th token after the replacement
pub open spec fn replaced<'a, 'b: 'a, F: Fn(&Token<'a>) -> Option<Token<'b>>>(f: F, old: Token<'a>, new: Token<'a>) -> bool {
    exists|o: Option<Token<'b>>| #[trigger] f.ensures((&old,), o) && new == (match o { Some(t) => t, None => old })
}
/// the next element of v.iter_mut()
pub fn vx_next_mut<'x, T>(v: &'x mut Vec<T>, i: &mut usize) -> (r: Option<&'x mut T>)
    ensures ({ let k = *old(i) as int;
        if k < old(v)@.len() { r is Some && *r->0 == old(v)@[k] && final(v)@ == old(v)@.update(k, *final(r->0)) && *final(i) == k + 1 }
        else { r is None && final(v)@ == old(v)@ && *final(i) == k } })
{ if *i < v.len() { let k = *i; *i = k + 1; Some(&mut v[k]) } else { None } }
//@ fn src/js/utils.rs replace_token_with
//@ spec
    requires forall|t: &Token<'a>| callback.requires((t,)),
    ensures replaced(*callback, token, r),
//@ end
//@ fn src/js/utils.rs replace_tokens_with
//@ rw for $t in tokens . 0 . iter_mut ( ) =>> let mut __i: usize = 0; while let Some($t) = vx_next_mut(&mut tokens.0, &mut __i)
//@ spec
    requires forall|t: &Token<'a>| callback.requires((t,)),
    ensures r.0@.len() == tokens.0@.len(), forall|i: int| 0 <= i < tokens.0@.len() ==> replaced(callback, tokens.0@[i], #[trigger] r.0@[i]),
//@ start
    let ghost v0 = tokens.0@;
//@ loop 1
    invariant __i <= tokens.0@.len(), tokens.0@.len() == v0.len(), forall|t: &Token<'a>| callback.requires((t,)),
        forall|i: int| 0 <= i < __i ==> replaced(callback, v0[i], #[trigger] tokens.0@[i]),
        forall|i: int| __i <= i < v0.len() ==> #[trigger] tokens.0@[i] == v0[i],
    ensures __i == tokens.0@.len(),
    decreases v0.len() - __i
//@ end

// ================================================================ code: declarations
//@ rw tokens [ $$x ] =>> tokens.0[$$x]
//@ fn src/js/utils.rs get_variable_name_and_value_positions
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures found(vv(tokens.0@), pos as int, r),
//@ start
    let ghost v = vv(tokens.0@);
    let ghost pos0 = pos as int;
    proof { assert(v.len() == tokens.0@.len()); if pos < v.len() { lemma_skip_i(v, pos0 + 1); } }
//@ loop 1
    invariant pos < pos0, forall|k: int| pos < k < pos0 ==> idle(#[trigger] v[k]),
    decreases pos
//@ loop 1 start
    proof { assert(tv(tokens.0@[pos as int]) == v[pos as int]); }
//@ loop 2
    invariant pos0 <= tmp, var_kw(v[pos0]) ==> pos0 < tmp, forall|k: int| pos0 <= k < tmp ==> decl(v, k) is None,
    decreases tokens.0@.len() - tmp
//@ loop 3
    invariant tmp < tmp2 <= tokens.0@.len(), skip_l(v, tmp + 1) == skip_l(v, tmp2 as int),
    ensures decl(v, tmp as int) is None,
    decreases tokens.0@.len() - tmp2
//@ loop 4
    invariant skip_l(v, tmp + 1) < tmp2 <= tokens.0@.len(), skip_i(v, skip_l(v, tmp + 1) + 1) == skip_i(v, tmp2 as int),
    ensures decl(v, tmp as int) is None,
    decreases tokens.0@.len() - tmp2
//@ end

/// the range a..b
pub struct VRange { pub i: usize, pub end: usize }
impl VRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, old(self).i >= old(self).end ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).end ==> r == Some(old(self).i) && final(self).i == old(self).i + 1,
    { if self.i < self.end { self.i = self.i + 1; Some(self.i - 1) } else { None } }
}
pub fn vx_into_iter(x: core::ops::Range<usize>) -> (r: VRange) ensures r.i == x.start, r.end == x.end { VRange { i: x.start, end: x.end } }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
//@ rw s == array_name =>> vx_str_eq(s, array_name)
//@ fn src/js/utils.rs get_array
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures r is Some ==> is_array(vv(tokens.0@), array_name@, (r->0).0@, (r->0).1 as int),
        match the_array(vv(tokens.0@), array_name@) { Some((a, e)) => r is Some && (r->0).0@ == a && (r->0).1 == e, None => r is None },
//@ start
    let ghost v = vv(tokens.0@);
    let ghost name = array_name@;
    proof { assert(v.len() == tokens.0@.len()); }
//@ loop 1
    invariant __it1.end == v.len(), __it1.i <= __it1.end,
        looking_for_var ==> exists|kw: int| #[trigger] after_var(v, kw, __it1.i as int),
        looking_for_equal ==> exists|kw: int| #[trigger] after_name(v, name, kw, __it1.i as int),
        looking_for_array_start ==> exists|kw: int| #[trigger] after_equal(v, name, kw, __it1.i as int),
        getting_values ==> exists|kw: int| #[trigger] in_array(v, name, kw, ret@, __it1.i as int),
        !getting_values ==> ret@ == Seq::<usize>::empty(),
        the_array(v, name) == find_array(v, name, __it1.i as int, state(looking_for_var, looking_for_equal, looking_for_array_start, getting_values), ret@),
        !(looking_for_var && (looking_for_equal || looking_for_array_start || getting_values)),
        !(looking_for_equal && (looking_for_array_start || getting_values)), !(looking_for_array_start && getting_values),
    decreases __it1.end - __it1.i
//@ loop 1 start
    proof { if __it1.i < v.len() { lemma_array_step(v, name, ret@, __it1.i as int); } }
//@ end

} // mod help

