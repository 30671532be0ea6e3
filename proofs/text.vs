pub mod text {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::StringSliceAdditionalSpecFns;
use super::base::*;

// ================================================================ text and byte offsets
/// the UTF-8 encoding
#[verifier::opaque]
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
/// byte offset of the k-th character
#[verifier::opaque]
pub open spec fn off(s: Seq<char>, k: int) -> int { encode_utf8(s.take(k)).len() as int }
/// number of bytes of a character
#[verifier::opaque]
pub open spec fn wid(c: char) -> int { encode_scalar(c as u32).len() as int }
/// the index of the character at this byte offset
#[verifier::opaque]
pub open spec fn at(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && off(s, k) == b }
/// a character starts (or the text ends) at this byte offset
pub open spec fn is_off(s: Seq<char>, b: int) -> bool { 0 <= at(s, b) <= s.len() && off(s, at(s, b)) == b }

pub broadcast proof fn lemma_off0(s: Seq<char>)
    ensures #[trigger] off(s, 0) == 0
{ reveal(off); assert(s.take(0) =~= Seq::<char>::empty()); }
pub proof fn lemma_off_lt(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures off(s, a) < off(s, b)
{
    reveal(off);
    lemma_encode_utf8_len_strictly_monotonic(s, a, b);
}
pub proof fn lemma_off_next(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures off(s, k + 1) == off(s, k) + wid(s[k])
{
    reveal(off); reveal(wid);
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    encode_utf8_push(s.take(k), s[k]);
}
pub broadcast proof fn lemma_wid(c: char)
    ensures 1 <= #[trigger] wid(c) <= 4, (c as u32) < 0x80 ==> wid(c) == 1
{ reveal(wid); }
pub broadcast proof fn lemma_off_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures #[trigger] off(s, a) <= #[trigger] off(s, b), off(s, b) - off(s, a) >= b - a
    decreases b - a
{
    if a < b { lemma_off_lt(s, a, b); lemma_off_mono(s, a, b - 1); lemma_off_lt(s, b - 1, b); }
}
pub broadcast proof fn lemma_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures at(s, #[trigger] off(s, k)) == k
{
    reveal(at);
    let j = at(s, off(s, k));
    if j < k { lemma_off_lt(s, j, k); } else if j > k { lemma_off_lt(s, k, j); }
}
pub broadcast proof fn lemma_off_len(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= k <= #[trigger] off(s, k) <= off(s, s.len() as int)
{ lemma_off0(s); lemma_off_mono(s, 0, k); lemma_off_mono(s, k, s.len() as int); }
/// equal offsets are equal positions
pub proof fn lemma_at_mono(s: Seq<char>, a: int, b: int)
    requires is_off(s, a), is_off(s, b), a <= b
    ensures at(s, a) <= at(s, b)
{
    if at(s, a) > at(s, b) { lemma_off_lt(s, at(s, b), at(s, a)); }
}
pub proof fn lemma_boundary(a: Seq<char>, b: Seq<char>)
    ensures is_char_boundary(encode_utf8(a) + encode_utf8(b), encode_utf8(a).len() as int), valid_utf8(encode_utf8(a) + encode_utf8(b))
    decreases a.len()
{
    encode_utf8_concat(a, b);
    encode_utf8_valid_utf8(a + b);
    let t = encode_utf8(a) + encode_utf8(b);
    if a.len() > 0 {
        let d = a.drop_first();
        lemma_boundary(d, b);
        encode_utf8_first_scalar(a + b);
        assert(pop_first_scalar(t) =~= encode_utf8(d) + encode_utf8(b));
    }
}
pub proof fn lemma_str(s: &str, k: int)
    requires 0 <= k <= s@.len()
    ensures is_char_boundary(s.spec_bytes(), off(s@, k)), s.spec_bytes().len() == off(s@, s@.len() as int), off(s@, k) <= s.spec_bytes().len()
{
    reveal(off);
    lemma_boundary(s@.take(k), s@.skip(k));
    encode_utf8_concat(s@.take(k), s@.skip(k));
    assert(s@.take(k) + s@.skip(k) =~= s@);
    assert(s@.take(s@.len() as int) =~= s@);
}
pub proof fn lemma_sub(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures encode_utf8(s).subrange(off(s, i), off(s, j)) == encode_utf8(s.subrange(i, j))
{
    reveal(off);
    let (a, b, c) = (s.take(i), s.subrange(i, j), s.skip(j));
    encode_utf8_concat(a, b);
    encode_utf8_concat(a + b, c);
    assert(a + b =~= s.take(j));
    assert((a + b) + c =~= s);
    assert(encode_utf8(s).subrange(off(s, i), off(s, j)) =~= encode_utf8(b));
}
pub proof fn lemma_enc_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
/// the slicing operator of std: it panics unless both ends are character boundaries
#[verifier::external_body]
pub fn vx_index<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), a as int), is_char_boundary(s.spec_bytes(), b as int)
    ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, b as int)
{ &s[a..b] }
/// &s[a..b]
pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires is_off(s@, a as int), is_off(s@, b as int), a <= b
    ensures r@ == s@.subrange(at(s@, a as int), at(s@, b as int)), at(s@, a as int) <= at(s@, b as int)
{
    proof {
        lemma_str(s, at(s@, a as int));
        lemma_str(s, at(s@, b as int));
        lemma_at_mono(s@, a as int, b as int);
        lemma_sub(s@, at(s@, a as int), at(s@, b as int));
    }
    let r = vx_index(s, a, b);
    proof { lemma_enc_inj(r@, s@.subrange(at(s@, a as int), at(s@, b as int))); }
    r
}
/// a text is at most isize::MAX bytes long
pub axiom fn axiom_len(s: &str)
    ensures off(s@, s@.len() as int) <= isize::MAX;
pub fn vx_len(s: &str) -> (r: usize)
    ensures r == off(s@, s@.len() as int), r <= isize::MAX
{
    proof { lemma_str(s, 0); axiom_len(s); }
    s.len()
}
pub fn vx_wid(c: char) -> (r: usize)
    ensures r == wid(c)
{ proof { reveal(wid); } c.len_utf8() }
/// s.char_indices(), peekable
#[verifier::external_body]
pub struct CharIndices { x: u8 }
impl CharIndices {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).src() == old(self).src(), 0 <= old(self).idx() <= old(self).src().len(),
            ({ let (s, i) = (old(self).src(), old(self).idx());
               if i >= s.len() { r is None && final(self).idx() == i }
               else { r == Some((off(s, i) as usize, s[i])) && 0 <= off(s, i) <= usize::MAX && final(self).idx() == i + 1
                      && off(s, i + 1) == off(s, i) + wid(s[i]) && off(s, i + 1) <= isize::MAX } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<(usize, char)>)
        ensures 0 <= self.idx() <= self.src().len(),
            r == (if self.idx() >= self.src().len() { None } else { Some((off(self.src(), self.idx()) as usize, self.src()[self.idx()])) })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: CharIndices) ensures r.src() == s@, r.idx() == 0 { unimplemented!() }
pub fn vx_peeked(p: Option<(usize, char)>, c: char) -> (r: bool) ensures r == (match p { Some((_, d)) => d == c, None => false })
{ match p { Some((_, d)) => d == c, None => false } }
pub broadcast group group_off { lemma_off0, lemma_wid, lemma_off_mono, lemma_at }
} // mod text
