//@ include js_types.vs
//@ include js_text.vs
//@ include js_clean.vs
//@ include js_print.vs
pub mod prop {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtxt::*;
use super::cspec::*;
use super::pspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};

use super::disp::*;
// ================================================================ S04
/// The text of every token is printed in full and in order, with nothing but at most one blank
/// between two of them, and a blank between two words.
pub proof fn prop_printed(v: Seq<J>, i: int)
    requires 0 < i < v.len()
    ensures
        exists|pre: Seq<char>, post: Seq<char>| #[trigger] parts(pre, jtext(v[i - 1]), sep(v[i - 1], v[i]), jtext(v[i]), post) == all(v)
            && pre.len() == (if i == 1 { 0 } else { printed(v, i - 1).len() + sep(v[i - 2], v[i - 1]).len() }),
        sep(v[i - 1], v[i]).len() == 0 || sep(v[i - 1], v[i]) == seq![' '],
        word_l(v[i - 1]) && word_r(v[i]) ==> sep(v[i - 1], v[i]) == seq![' '],
{
    reveal_with_fuel(printed, 2);
    lemma_prefix(v, i + 1);
    let pre = if i == 1 { Seq::empty() } else { printed(v, i - 1) + sep(v[i - 2], v[i - 1]) };
    let post = all(v).skip(printed(v, i + 1).len() as int);
    assert(printed(v, i) =~= pre + jtext(v[i - 1]));
    assert(all(v) =~= printed(v, i + 1) + post);
    assert(parts(pre, jtext(v[i - 1]), sep(v[i - 1], v[i]), jtext(v[i]), post) =~= all(v));
}
pub open spec fn parts(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) -> Seq<char> { a + b + c + d + e }
/// Cleaning puts nothing next to each other that would be read as something else, unless it stood
/// so in the source: no `+ +` becomes `++`, no `- -` becomes `--`.
pub proof fn prop_apart(v: Seq<J>, k: int)
    requires 0 <= k < cl_o(v, 0, Seq::empty(), false).len() - 1
    ensures ({
        let o = cl_o(v, 0, Seq::empty(), false);
        let (a, b) = (o[k], o[k + 1]);
        ts(o) == cl(v, 0, Seq::empty(), false)
            && (a.from >= 0 && b.from >= 0 && (a.t == J::Operation(Operation::Addition) && b.t == a.t || a.t == J::Operation(Operation::Subtract) && b.t == a.t)
                ==> b.from == a.from + 1 && v[a.from] == a.t && v[b.from] == b.t)
    })
{
    prop_clean(v);
    let o = cl_o(v, 0, Seq::empty(), false);
    assert(apart_ok(o, k));
}
pub proof fn prop_apart_except(v: Seq<J>, p: Seq<bool>, k: int)
    requires p.len() == v.len(), 0 <= k < cle_o(v, p, 0, Seq::empty(), false).len() - 1
    ensures ({
        let o = cle_o(v, p, 0, Seq::empty(), false);
        let (a, b) = (o[k], o[k + 1]);
        ts(o) == cle(v, p, 0, Seq::empty(), false)
            && (a.from >= 0 && b.from >= 0 && (a.t == J::Operation(Operation::Addition) && b.t == a.t || a.t == J::Operation(Operation::Subtract) && b.t == a.t)
                ==> b.from == a.from + 1 && v[a.from] == a.t && v[b.from] == b.t)
    })
{
    prop_clean_except(v, p);
    let o = cle_o(v, p, 0, Seq::empty(), false);
    assert(apart_ok(o, k));
}
} // mod prop

fn main() {}
} // verus!
