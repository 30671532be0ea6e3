pub mod pspec {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::jtxt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ what is printed
/// tokens that end, and tokens that start, with a letter, a digit or the like
pub open spec fn word_l(t: J) -> bool { t is Keyword || t is Other || t is CreatedVar || t is Number || t is FloatingNumber }
pub open spec fn word_r(t: J) -> bool { word_l(t) || t is CreatedVarDecl }
/// a blank is printed between a and b
pub open spec fn gap(a: J, b: J) -> bool {
    ||| word_l(a) && word_r(b)
    ||| (b == J::Keyword(Keyword::In) || b == J::Keyword(Keyword::InstanceOf)) && !(a is Char) && !(a is String)
}
pub open spec fn sep(a: J, b: J) -> Seq<char> { if gap(a, b) { seq![' '] } else { Seq::empty() } }
/// the text of the first n tokens
#[verifier::opaque]
pub open spec fn printed(v: Seq<J>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() }
    else if n == 1 { jtext(v[0]) }
    else { printed(v, n - 1) + sep(v[n - 2], v[n - 1]) + jtext(v[n - 1]) }
}
pub open spec fn all(v: Seq<J>) -> Seq<char> { printed(v, v.len() as int) }
} // mod pspec

pub mod disp {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::out::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::pspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use super::jtok::group_vv;

// ================================================================ code: printing
//@ rw fmt :: Formatter < '_ > =>> impl VxWrite
//@ rw fmt :: Result =>> Result<(), IoError>
//@ rw std :: io :: Write =>> VxWrite
//@ rw io :: Write =>> VxWrite
//@ rw std :: io :: Result < () > =>> Result<(), IoError>
//@ rw io :: Result < () > =>> Result<(), IoError>
//@ rw mut w : W =>> w : &mut W
//@ rw w : W =>> w : &mut W
//@ rw x . contains ( "*/" ) =>> vx_has_end(x)

/// the range a..b
pub struct VRange { pub i: usize, pub end: usize }
impl VRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, old(self).i >= old(self).end ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).end ==> r == Some(old(self).i) && final(self).i == old(self).i + 1,
    { if self.i < self.end { self.i = self.i + 1; Some(self.i - 1) } else { None } }
}
pub fn vx_into_iter(x: core::ops::Range<usize>) -> (r: VRange) ensures r.i == x.start, r.end == x.end { VRange { i: x.start, end: x.end } }
/// x.contains("*/")
#[verifier::external_body]
pub fn vx_has_end(x: &str) -> (r: bool) ensures r == has_end(x@) { x.contains("*/") }
impl VxFmt for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), IoError>) { f.write_str(self.as_str()) }
}
/// Display of usize
impl VxFmt for usize {
    open spec fn text(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), IoError>) { unimplemented!() }
}

//@ fn src/js/token.rs impl=ReservedChar trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), seq![rch(*self)], r is Ok),
//@ end
//@ fn src/js/token.rs impl=Keyword trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), ktext(*self), r is Ok),
//@ end
//@ fn src/js/token.rs impl=Condition trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), ctext(*self), r is Ok),
//@ end
//@ fn src/js/token.rs impl=Operation trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), otext(*self), r is Ok),
//@ end
//@ fn src/js/token.rs impl=Token trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), jtext(tv(*self)), r is Ok),
//@ start
    proof {
        let o = f.out();
        reveal_strlit("/"); reveal_strlit("/*"); reveal_strlit("*/"); reveal_strlit("/*!"); reveal_strlit("//"); reveal_strlit("\n"); reveal_strlit("g"); reveal_strlit("i");
        assert("/"@ =~= seq!['/']); assert("g"@ =~= seq!['g']); assert("i"@ =~= seq!['i']); assert("\n"@ =~= seq!['\n']);
        assert("/*"@ =~= seq!['/', '*']); assert("*/"@ =~= seq!['*', '/']); assert("//"@ =~= seq!['/', '/']); assert("/*!"@ =~= seq!['/', '*', '!']);
        match *self {
            Token::Comment(x) => {
                lemma_parts(o, "//"@, x@, "//"@ + x@); lemma_parts(o, "//"@ + x@, "\n"@, "//"@ + x@ + "\n"@);
                lemma_parts(o, "/*"@, x@, "/*"@ + x@); lemma_parts(o, "/*"@ + x@, "*/"@, "/*"@ + x@ + "*/"@);
            }
            Token::License(x) => { lemma_parts(o, "/*!"@, x@, "/*!"@ + x@); lemma_parts(o, "/*!"@ + x@, "*/"@, "/*!"@ + x@ + "*/"@); }
            Token::Regex { regex, is_global, is_interactive } => {
                let a = "/"@ + regex@;
                let b = a + "/"@;
                let c = b + (if is_global { "g"@ } else { Seq::empty() });
                let e = Seq::<char>::empty();
                assert(b + e =~= b); assert(c + e =~= c);
                reveal_strlit(""); assert(""@ =~= e);
                lemma_parts(o, b, ""@, b); lemma_parts(o, c, ""@, c);
                lemma_parts(o, "/"@, regex@, a); lemma_parts(o, a, "/"@, b);
                lemma_parts(o, b, "g"@, b + "g"@); lemma_parts(o, c, "i"@, c + "i"@);
                let full = jtext(tv(*self));
                assert(full == c + (if is_interactive { "i"@ } else { e }));
                lemma_rest(o, "/"@, full); lemma_rest(o, a, full); lemma_rest(o, b, full); lemma_rest(o, c, full);
            }
            _ => { }
        }
    }
//@ end
//@ fn src/js/token.rs impl=Token get_required
//@ spec
    ensures r == (if word_r(tv(*self)) { Some(' ') } else { None }),
//@ end
//@ fn src/js/token.rs impl=Token requires_before
//@ spec
    ensures r == (tv(*self) == J::Keyword(Keyword::In) || tv(*self) == J::Keyword(Keyword::InstanceOf)),
//@ end

/// the text of the first n tokens, the blank before the next one included if it comes from the left one
pub open spec fn upto(v: Seq<J>, n: int) -> Seq<char> {
    printed(v, n) + (if 0 < n < v.len() && word_l(v[n - 1]) && word_r(v[n]) { seq![' '] } else { Seq::empty() })
}
/// the blank that is printed because of the right one
pub open spec fn before(v: Seq<J>, k: int) -> Seq<char> { if k > 0 && gap(v[k - 1], v[k]) && !word_l(v[k - 1]) { seq![' '] } else { Seq::empty() } }
pub open spec fn after(v: Seq<J>, k: int) -> Seq<char> { if k + 1 < v.len() && word_l(v[k]) && word_r(v[k + 1]) { seq![' '] } else { Seq::empty() } }
pub proof fn lemma_prefix(v: Seq<J>, k: int)
    requires 0 <= k <= v.len()
    ensures printed(v, k).len() <= all(v).len(), all(v).take(printed(v, k).len() as int) == printed(v, k),
        upto(v, k).len() <= all(v).len(), all(v).take(upto(v, k).len() as int) == upto(v, k),
    decreases v.len() - k
{
    reveal_with_fuel(printed, 2);
    if k < v.len() { lemma_prefix(v, k + 1); assert(printed(v, k + 1).take(upto(v, k).len() as int) =~= upto(v, k)); assert(printed(v, k + 1).take(printed(v, k).len() as int) =~= printed(v, k));
        assert(all(v).take(upto(v, k).len() as int) =~= upto(v, k)); assert(all(v).take(printed(v, k).len() as int) =~= printed(v, k));
    } else { assert(all(v).take(all(v).len() as int) =~= all(v)); assert(upto(v, k) =~= all(v)); }
}
/// what writing one token does
pub proof fn lemma_step(v: Seq<J>, k: int, o: Seq<u8>, wo: Seq<u8>)
    requires 0 <= k < v.len(), wrote(o, wo, upto(v, k), true)
    ensures
        before(v, k).len() == 0 ==> wrote(o, wo, upto(v, k) + before(v, k), true),
        forall|c: Seq<u8>| #[trigger] wrote(wo, c, seq![' '], false) && before(v, k).len() > 0 ==> wrote(o, c, all(v), false),
        forall|c: Seq<u8>| #[trigger] wrote(wo, c, seq![' '], true) && before(v, k).len() > 0 ==> wrote(o, c, upto(v, k) + before(v, k), true),
        forall|b: Seq<u8>, c: Seq<u8>| #[trigger] wrote(o, b, upto(v, k) + before(v, k), true) && #[trigger] wrote(b, c, jtext(v[k]), false) ==> wrote(o, c, all(v), false),
        forall|b: Seq<u8>, c: Seq<u8>| #[trigger] wrote(o, b, upto(v, k) + before(v, k), true) && #[trigger] wrote(b, c, jtext(v[k]), true) ==> wrote(o, c, printed(v, k + 1), true),
        forall|b: Seq<u8>, c: Seq<u8>| #[trigger] wrote(o, b, printed(v, k + 1), true) && #[trigger] wrote(b, c, seq![' '], false) && after(v, k).len() > 0 ==> wrote(o, c, all(v), false),
        forall|b: Seq<u8>, c: Seq<u8>| #[trigger] wrote(o, b, printed(v, k + 1), true) && #[trigger] wrote(b, c, seq![' '], true) && after(v, k).len() > 0 ==> wrote(o, c, upto(v, k + 1), true),
        after(v, k).len() == 0 ==> forall|b: Seq<u8>| #[trigger] wrote(o, b, printed(v, k + 1), true) ==> wrote(o, b, upto(v, k + 1), true),
{
    reveal_with_fuel(printed, 2);
    lemma_prefix(v, k); lemma_prefix(v, k + 1);
    let a = upto(v, k);
    let b = a + before(v, k);
    assert(printed(v, k + 1) =~= b + jtext(v[k]));
    assert(upto(v, k + 1) == printed(v, k + 1) + after(v, k));
    assert(printed(v, k + 1).take(b.len() as int) =~= b);
    assert(all(v).take(b.len() as int) =~= b);
    if before(v, k).len() == 0 { assert(b =~= a); }
    if after(v, k).len() == 0 { assert(upto(v, k + 1) =~= printed(v, k + 1)); }
    lemma_parts(o, a, seq![' '], a + seq![' ']);
    lemma_parts(o, b, jtext(v[k]), printed(v, k + 1));
    lemma_parts(o, printed(v, k + 1), seq![' '], printed(v, k + 1) + seq![' ']);
    lemma_rest(o, a, all(v)); lemma_rest(o, b, all(v)); lemma_rest(o, printed(v, k + 1), all(v)); lemma_rest(o, upto(v, k + 1), all(v));
}
//@ fn src/js/token.rs impl=Tokens write
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures wrote(old(w).out(), final(w).out(), all(vv(self.0@)), r is Ok),
//@ start
    let ghost v = vv(self.0@);
    let ghost o0 = w.out();
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); lemma_wrote_nil(o0); reveal_with_fuel(printed, 2); }
//@ loop 1
    invariant __it1.end == v.len(), __it1.i <= __it1.end, v == vv(self.0@), o0 == old(w).out(), " "@ == seq![' '],
        wrote(o0, w.out(), upto(v, __it1.i as int), true), forall|b: Seq<u8>| #[trigger] wrote(o0, b, upto(v, v.len() as int), true) ==> wrote(o0, b, all(v), true),
    ensures wrote(o0, w.out(), all(v), true),
    decreases __it1.end - __it1.i
//@ loop 1 start
    let ghost wo = w.out();
    let ghost k = __it1.i as int;
    proof { if k < v.len() { lemma_step(v, k, o0, wo); } }
//@ end
//@ fn src/js/token.rs impl=Tokens trait=Display fmt
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures wrote(old(f).out(), final(f).out(), all(vv(self.0@)), r is Ok),
//@ start
    let ghost v = vv(self.0@);
    let ghost o0 = f.out();
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); lemma_wrote_nil(o0); reveal_with_fuel(printed, 2); }
//@ loop 1
    invariant __it1.end == v.len(), __it1.i <= __it1.end, v == vv(self.0@), o0 == old(f).out(), " "@ == seq![' '],
        wrote(o0, f.out(), upto(v, __it1.i as int), true), forall|b: Seq<u8>| #[trigger] wrote(o0, b, upto(v, v.len() as int), true) ==> wrote(o0, b, all(v), true),
    ensures wrote(o0, f.out(), all(v), true),
    decreases __it1.end - __it1.i
//@ loop 1 start
    let ghost wo = f.out();
    let ghost k = __it1.i as int;
    proof { if k < v.len() { lemma_step(v, k, o0, wo); } }
//@ end

} // mod disp
