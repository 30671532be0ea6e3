use vstd::prelude::*;

verus! {
pub mod base {
use vstd::prelude::*;

// ---- trusted contracts on std
pub assume_specification [char::is_ascii_control] (c: &char) -> (r: bool)
    ensures r == ((*c as u32) < 0x20 || *c as u32 == 0x7f);

//@ rw $a . eq (& $b) =>> ( * $a == $b )
//@ rw $a . ne (& $b) =>> ( * $a != $b )

pub open spec fn ws(c: char) -> bool { vstd_ws(c) }
pub open spec fn vstd_ws(c: char) -> bool {
    c==' ' || c=='\u{a0}' || (9 <= c as u32 && c as u32 <=13) || c=='\u{85}' || c=='\u{1680}'
    || ('\u{2000}' <= c && c<='\u{200a}') || c=='\u{2028}' || c=='\u{2029}'|| c=='\u{202f}' || c=='\u{205f}'|| c=='\u{3000}'
}
pub open spec fn c0(c: char) -> bool { (c as u32) < 0x20 }

pub open spec fn cons<T>(c: T, s: Seq<T>) -> Seq<T> { seq![c] + s }
pub broadcast proof fn lemma_uncons<T>(s: Seq<T>)
    requires s.len() > 0
    ensures #[trigger] cons(s[0], s.drop_first()) == s
{
    assert(seq![s[0]] + s.drop_first() =~= s);
}

pub broadcast group group_base { lemma_uncons }
} // mod base
