//@ include prelude.vs
//@ include text.vs
//@ include html_spec.vs
pub mod hstd {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::rx::*;
use super::hspec::*;
broadcast use group_h;

// ================================================================ trusted: text
pub trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_str(&self) -> (r: &str) ensures r@ == self.text();
}
impl VxText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self }
}
impl VxText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
impl<'a> VxText for &'a str {
    open spec fn text(&self) -> Seq<char> { (*self)@ }
    fn vx_str(&self) -> (r: &str) { *self }
}
impl<'a> VxText for &'a String {
    open spec fn text(&self) -> Seq<char> { (*self)@ }
    fn vx_str(&self) -> (r: &str) { self.as_str() }
}
/// what is searched for: a text or a character
pub trait VxPat {
    spec fn sought(&self) -> Seq<char>;
    fn vx_sought(&self) -> (r: String) ensures r@ == self.sought();
}
impl<'a, T: VxText + ?Sized> VxPat for &'a T {
    open spec fn sought(&self) -> Seq<char> { (*self).text() }
    fn vx_sought(&self) -> (r: String) { self.vx_str().to_string() }
}
impl VxPat for char {
    open spec fn sought(&self) -> Seq<char> { seq![*self] }
    fn vx_sought(&self) -> (r: String) { let mut s = vx_string(); self.vx_push(&mut s); proof { assert(s@ =~= seq![*self]); } s }
}
/// the methods of str
pub trait VxOps: VxText {
    fn vx_replace<A: VxPat, B: VxText + ?Sized>(&self, a: A, b: &B) -> (r: String)
        ensures a.sought().len() > 0 ==> r@ == repl(self.text(), a.sought(), b.text());
    fn vx_find<A: VxPat>(&self, a: A) -> (r: Option<usize>) ensures r is Some == occurs(self.text(), a.sought());
    fn vx_contains<A: VxPat>(&self, a: A) -> (r: bool) ensures r == occurs(self.text(), a.sought());
    fn vx_starts_with<A: VxPat>(&self, a: A) -> (r: bool) ensures r == starts(self.text(), a.sought());
    fn vx_trim(&self) -> (r: &str) ensures trims(self.text(), r@);
    fn vx_trim_start(&self) -> (r: &str) ensures trimmed_start(self.text(), r@);
    fn vx_lower(&self) -> (r: String) ensures lowers(self.text(), r@);
    fn vx_first(&self) -> (r: Option<char>) ensures r is Some == (self.text().len() > 0), r is Some ==> r->0 == self.text()[0];
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.text().len() == 0);
}
impl<T: VxText + ?Sized> VxOps for T {
    fn vx_replace<A: VxPat, B: VxText + ?Sized>(&self, a: A, b: &B) -> (r: String) { vx_replace_str(self.vx_str(), a.vx_sought().as_str(), b.vx_str()) }
    fn vx_find<A: VxPat>(&self, a: A) -> (r: Option<usize>) { vx_find_str(self.vx_str(), a.vx_sought().as_str()) }
    fn vx_contains<A: VxPat>(&self, a: A) -> (r: bool) { vx_find_str(self.vx_str(), a.vx_sought().as_str()).is_some() }
    fn vx_starts_with<A: VxPat>(&self, a: A) -> (r: bool) { vx_starts_str(self.vx_str(), a.vx_sought().as_str()) }
    fn vx_trim(&self) -> (r: &str) { vx_trim_str(self.vx_str()) }
    fn vx_trim_start(&self) -> (r: &str) { vx_trim_start_str(self.vx_str()) }
    fn vx_lower(&self) -> (r: String) { vx_lower_str(self.vx_str()) }
    fn vx_first(&self) -> (r: Option<char>) { vx_first_str(self.vx_str()) }
    fn vx_is_empty(&self) -> (r: bool) { vx_first_str(self.vx_str()).is_none() }
}
/// what format!() can take
pub trait VxPush {
    spec fn pushed(&self) -> Seq<char>;
    fn vx_push(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.pushed();
}
impl VxPush for str {
    open spec fn pushed(&self) -> Seq<char> { self@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self) }
}
impl<'a> VxPush for &'a str {
    open spec fn pushed(&self) -> Seq<char> { (*self)@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, *self) }
}
impl VxPush for String {
    open spec fn pushed(&self) -> Seq<char> { self@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self.as_str()) }
}
impl VxPush for VxCow {
    open spec fn pushed(&self) -> Seq<char> { self.0@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self.0.as_str()) }
}
impl VxPush for char {
    open spec fn pushed(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_push(&self, s: &mut String) { s.push(*self) }
}
#[verifier::external_body]
pub fn vx_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn vx_replace_str(s: &str, a: &str, b: &str) -> (r: String) ensures a@.len() > 0 ==> r@ == repl(s@, a@, b@) { s.replace(a, b) }
#[verifier::external_body]
fn vx_find_str(s: &str, a: &str) -> (r: Option<usize>) ensures r is Some == occurs(s@, a@) { s.find(a) }
#[verifier::external_body]
fn vx_starts_str(s: &str, a: &str) -> (r: bool) ensures r == starts(s@, a@) { s.starts_with(a) }
#[verifier::external_body]
fn vx_trim_str(s: &str) -> (r: &str) ensures trims(s@, r@) { s.trim() }
#[verifier::external_body]
fn vx_trim_start_str(s: &str) -> (r: &str)
    ensures trimmed_start(s@, r@)
{ s.trim_start() }
#[verifier::external_body]
fn vx_lower_str(s: &str) -> (r: String) ensures lowers(s@, r@) { s.to_lowercase() }
#[verifier::external_body]
fn vx_first_str(s: &str) -> (r: Option<char>) ensures r is Some == (s@.len() > 0), r is Some ==> r->0 == s@[0] { s.chars().next() }
/// &s[1..]
pub fn vx_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires is_off(s@, a as int),
    ensures r@ == s@.skip(at(s@, a as int))
{
    let n = vx_len(s);
    proof {
        broadcast use lemma_at;
        assert(at(s@, off(s@, s@.len() as int)) == s@.len());
        if a > n { lemma_off_mono(s@, at(s@, a as int), s@.len() as int); }
        assert(s@.subrange(at(s@, a as int), s@.len() as int) =~= s@.skip(at(s@, a as int)));
    }
    vx_slice(s, a, n)
}

/// &s[..b]
pub fn vx_upto<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires is_off(s@, b as int),
    ensures r@ == s@.take(at(s@, b as int))
{
    proof {
        broadcast use lemma_at;
        lemma_off0(s@);
        assert(at(s@, off(s@, 0)) == 0);
        lemma_off_mono(s@, 0, at(s@, b as int));
        assert(s@.subrange(0, at(s@, b as int)) =~= s@.take(at(s@, b as int)));
    }
    vx_slice(s, 0, b)
}

// ================================================================ trusted: the regex crate
/// the text of a Cow
pub struct VxCow(pub String);
impl VxCow {
    pub fn into_owned(self) -> (r: String) ensures r@ == self.0@ { self.0 }
    pub fn to_string(self) -> (r: String) ensures r@ == self.0@ { self.0 }
}
impl VxText for VxCow {
    open spec fn text(&self) -> Seq<char> { self.0@ }
    fn vx_str(&self) -> (r: &str) { self.0.as_str() }
}
#[verifier::external_body]
pub struct Regex { x: u8 }
#[verifier::external_body]
pub struct Captures { x: u8 }
impl Captures {
    pub uninterp spec fn pat(&self) -> Pat;
    pub uninterp spec fn whole(&self) -> Seq<char>;
    pub uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    /// caps[n]: the text of a group that takes part in every match
    #[verifier::external_body]
    pub fn vx_get(&self, n: usize) -> (r: &str)
        requires n == 0 || n <= self.pat().grp.len() && 0 <= self.pat().grp[n - 1] < self.pat().items.len(),
        ensures r@ == (if n == 0 { self.whole() } else { self.parts()[self.pat().grp[n - 1]] })
    { unimplemented!() }
}
pub struct VxMatch<'a> { pub s: &'a str }
impl<'a> VxMatch<'a> {
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.s@ { self.s }
}
/// the matches of a pattern in a text, one after the other
#[verifier::external_body]
pub struct Matches { x: u8 }
impl Matches {
    pub uninterp spec fn pat(&self) -> Pat;
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn left(&self) -> nat;
    /// the next match; what lies before it (or the rest, where there is none) goes to out
    #[verifier::external_body]
    pub fn next(&mut self, out: &mut String) -> (r: Option<Captures>)
        requires 0 <= old(self).pos() <= old(self).src().len(),
        ensures final(self).pat() == old(self).pat(), final(self).src() == old(self).src(),
            ({ let (p, s, i) = (old(self).pat(), old(self).src(), old(self).pos());
               match r {
                   Some(c) => exists|a: int, b: int| i <= a <= b <= s.len() && #[trigger] found(p, s, a, b, c.parts()) && final(self).pos() == b && c.pat() == p
                       && c.whole() == s.subrange(a, b) && final(out)@ == old(out)@ + s.subrange(i, a) && final(self).left() < old(self).left()
                       && (!matches(p, Seq::empty()) ==> none_at(p, s, i, a)),
                   None => final(self).pos() == s.len() && final(out)@ == old(out)@ + s.subrange(i, s.len() as int)
                       && (!matches(p, Seq::empty()) ==> none_at(p, s, i, s.len() as int)),
               } })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_regex(p: Ghost<Pat>) -> (r: Regex) ensures r.pat() == p@ { unimplemented!() }
impl Regex {
    pub uninterp spec fn pat(&self) -> Pat;
    #[verifier::external_body]
    pub fn vx_matches<S: VxText + ?Sized>(&self, s: &S) -> (r: Matches)
        ensures r.pat() == self.pat(), r.src() == s.text(), r.pos() == 0
    { unimplemented!() }
    /// every match becomes this text (in which no `$` stands for a group)
    pub fn replace_all<S: VxText + ?Sized>(&self, s: &S, by: &str) -> (r: VxCow)
        requires forall|i: int| 0 <= i < by@.len() ==> by@[i] != '$',
        ensures edits(lit_rel(self.pat(), by@), s.text(), r.0@)
    {
        let mut out = vx_string();
        let mut m = self.vx_matches(s);
        let ghost re = lit_rel(self.pat(), by@);
        proof { assert(m.src().take(0) =~= Seq::empty()); }
        loop
            invariant 0 <= m.pos() <= m.src().len(), m.src() == s.text(), m.pat() == self.pat(), re == lit_rel(self.pat(), by@),
                edits(re, m.src().take(m.pos()), out@),
            ensures m.pos() == m.src().len(), edits(re, m.src(), out@),
            decreases m.left()
        {
            let ghost (i, o) = (m.pos(), out@);
            match m.next(&mut out) {
                Some(c) => {
                    vx_push_str(&mut out, by);
                    proof {
                        let (a, b) = choose|a: int, b: int| i <= a <= b <= m.src().len() && #[trigger] found(m.pat(), m.src(), a, b, c.parts()) && m.pos() == b
                            && c.whole() == m.src().subrange(a, b) && out@ == (o + m.src().subrange(i, a)) + by@;
                        lemma_step(re, m.src(), i, a, b, o, by@);
                    }
                }
                None => {
                    proof {
                        lemma_edits_push(re, m.src().take(i), o, m.src().subrange(i, m.src().len() as int), m.src().subrange(i, m.src().len() as int));
                        assert(m.src().take(i) + m.src().subrange(i, m.src().len() as int) =~= m.src());
                        assert(m.src().take(m.pos()) =~= m.src());
                    }
                    break;
                }
            }
        }
        VxCow(out)
    }
    #[verifier::external_body]
    pub fn vx_find_all<'a>(&self, s: &'a str) -> (r: Vec<VxMatch<'a>>)
        ensures r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> matches(self.pat(), (#[trigger] r@[i]).s@)
    { unimplemented!() }
}
/// a gap and a match
pub proof fn lemma_step(r: Rel, s: Seq<char>, i: int, a: int, b: int, o: Seq<char>, q: Seq<char>)
    requires 0 <= i <= a <= b <= s.len(), edits(r, s.take(i), o), s.subrange(a, b) == q || r(s.subrange(a, b), q)
    ensures edits(r, s.take(b), (o + s.subrange(i, a)) + q)
{
    lemma_edits_push(r, s.take(i), o, s.subrange(i, a), s.subrange(i, a));
    lemma_edits_push(r, s.take(i) + s.subrange(i, a), o + s.subrange(i, a), s.subrange(a, b), q);
    assert((s.take(i) + s.subrange(i, a)) + s.subrange(a, b) =~= s.take(b));
}
// ---- iteration
pub struct VxIter<T> { pub v: Vec<T>, pub i: usize }
impl<T: Copy> VxIter<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).i <= old(self).v@.len(),
        ensures final(self).v == old(self).v, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
    {
        if self.i < self.v.len() { let t = self.v[self.i]; self.i = self.i + 1; Some(t) } else { None }
    }
}
impl<'a> Copy for VxMatch<'a> {}
impl<'a> Clone for VxMatch<'a> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
pub trait VxIntoIter { type It; spec fn elems(&self) -> Seq<Self::It>; fn vx_vec(self) -> (r: Vec<Self::It>) ensures r@ == self.elems(); }
impl<T> VxIntoIter for Vec<T> {
    type It = T;
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn vx_vec(self) -> (r: Vec<T>) { self }
}
impl<'a, T: Copy, const N: usize> VxIntoIter for &'a [T; N] {
    type It = T;
    open spec fn elems(&self) -> Seq<T> { (*self)@ }
    #[verifier::external_body]
    fn vx_vec(self) -> (r: Vec<T>) { self.to_vec() }
}
impl<T: Copy, const N: usize> VxIntoIter for [T; N] {
    type It = T;
    open spec fn elems(&self) -> Seq<T> { (*self)@ }
    #[verifier::external_body]
    fn vx_vec(self) -> (r: Vec<T>) { self.to_vec() }
}
pub fn vx_into_iter<I: VxIntoIter>(v: I) -> (r: VxIter<I::It>) ensures r.v@ == v.elems(), r.i == 0 { VxIter { v: v.vx_vec(), i: 0 } }
pub fn vx_at<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>)
    ensures r is Some == (i < v@.len()), r is Some ==> *r->0 == v@[i as int]
{ if i < v.len() { Some(&v[i]) } else { None } }
} // mod hstd

pub mod html {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::rx::*;
use super::hspec::*;
use super::hstd::*;
broadcast use {group_rx, group_h};

// ================================================================ code
//@ rw . replace ( * $a , $$b ) =>> .vx_replace($a, $$b)
//@ rw . replace ( $$a , $$b ) =>> .vx_replace($$a, $$b)
//@ rw . replace ( $$a , $$b , ) =>> .vx_replace($$a, $$b)
//@ rw $v . get ( $$a ) =>> vx_at(&$v, $$a)
//@ rw . find ( $$a ) =>> .vx_find($$a)
//@ rw . contains ( $$a ) =>> .vx_contains($$a)
//@ rw . starts_with ( $$a ) =>> .vx_starts_with($$a)
//@ rw . is_empty ( ) =>> .vx_is_empty()
//@ rw . trim ( ) =>> .vx_trim()
//@ rw . trim_start ( ) =>> .vx_trim_start()
//@ rw . to_lowercase ( ) =>> .vx_lower()
//@ rw . to_owned ( ) =>> .to_string()
//@ rw . chars ( ) . next ( ) =>> .vx_first()
//@ rw . find_iter ( $$a ) . collect ( ) =>> .vx_find_all($$a)
//@ rw . find_iter ( $$a ) =>> .vx_find_all($$a)
//@ rw $a . as_str ( ) [ 1 .. ] =>> vx_from($a.as_str(), 1)
//@ rw & $a [ .. $k ] =>> vx_upto($a.vx_str(), $k)
//@ rw & $a [ $k .. ] =>> vx_from($a.vx_str(), $k)
//@ rw $a [ $k .. ] =>> vx_from($a.vx_str(), $k)
//@ rw String :: new ( ) =>> vx_string()
//@ fn src/html.rs condense_whitespace
//@ spec
    ensures white(source@, r@),
//@ start
    broadcast use {lemma_lit_cong, lemma_cong_trans, group_form};
    proof {
        reveal_strlit("<pre"); reveal_strlit("<textarea"); reveal_strlit("> <"); reveal_strlit(" ");
        assert("> <"@ =~= seq!['>', ' ', '<']); assert(" "@ =~= seq![' ']);
        reveal(shortens);
    }
//@ after let lower_source
    proof {
        if occurs_ci(source@, "<pre"@) { lemma_lowers(source@, lower_source@, "<pre"@); }
        if occurs_ci(source@, "<textarea"@) { lemma_lowers(source@, lower_source@, "<textarea"@); }
    }
//@ end
//@ fn src/html.rs condense
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures edits(style_rel(), source@, r@),
//@ start
    broadcast use {lemma_type_lit, group_form};
//@ after let mut __rp1
    let ghost src = source@;
    proof {
        reveal_strlit("");
        assert(src.take(0) =~= Seq::empty());
        assert(style_pat(__rp1.pat()));
    }
//@ loop 1
    invariant __rp1.src() == src, 0 <= __rp1.pos() <= src.len(), style_pat(__rp1.pat()), edits(style_rel(), src.take(__rp1.pos()), __out1@),
    ensures edits(style_rel(), src, __out1@),
    decreases __rp1.left()
//@ loop 1 start
    let ghost (i0, o0) = (__rp1.pos(), __out1@);
//@ after __r1 . vx_push
    proof {
        let (a, b) = choose|a: int, b: int| i0 <= a <= b <= src.len() && #[trigger] found(__rp1.pat(), src, a, b, caps.parts()) && __rp1.pos() == b
            && caps.whole() == src.subrange(a, b) && __out1@ == (o0 + src.subrange(i0, a)) + __r1@;
        lemma_style_hit(__rp1.pat(), src, a, b, caps.parts());
        lemma_step(style_rel(), src, i0, a, b, o0, __r1@);
    }
//@ end
//@ fn src/html.rs clean_unneeded_tags
//@ spec
    ensures drops(source@, r@),
//@ start
    broadcast use lemma_drops_push;
    proof { reveal_strlit(""); }
//@ loop 1
    invariant __it1.i <= __it1.v@.len(), forall|i: int| 0 <= i < __it1.v@.len() ==> optional((#[trigger] __it1.v@[i])@), drops(source@, res@), ""@.len() == 0,
    decreases __it1.v@.len() - __it1.i
//@ loop 1 start
    broadcast use lemma_drops_push;
//@ end
//@ fn src/html.rs remove_comments
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures r@ == strip(source@),
//@ after let mut __rp1
    let ghost src = source@;
    proof {
        reveal_strlit(" "); reveal_strlit("["); reveal_strlit("<!--");
        assert(" "@ =~= seq![' ']); assert("["@ =~= seq!['[']); assert("<!--"@ =~= OPEN());
        assert(comment_pat(__rp1.pat())) by { reveal(comment_pat); broadcast use group_form; }
        lemma_comment_nonempty(__rp1.pat());
    }
//@ loop 1
    invariant __rp1.src() == src, comment_pat(__rp1.pat()), !matches(__rp1.pat(), Seq::empty()), 0 <= __rp1.pos() <= src.len(),
        stripped(src, __rp1.pos(), __out1@),
    ensures strip(src) == __out1@,
    decreases __rp1.left()
//@ loop 1 start
    let ghost (i0, o0) = (__rp1.pos(), __out1@);
//@ after __r1 . vx_push
    proof {
        let (a, b) = choose|a: int, b: int| i0 <= a <= b <= src.len() && #[trigger] found(__rp1.pat(), src, a, b, caps.parts()) && __rp1.pos() == b
            && caps.whole() == src.subrange(a, b) && __out1@ == (o0 + src.subrange(i0, a)) + __r1@ && none_at(__rp1.pat(), src, i0, a);
        lemma_stripped_hit(__rp1.pat(), src, i0, a, b, caps.parts(), o0);
    }
//@ before break
    proof { lemma_stripped_rest(__rp1.pat(), src, i0, o0); }
//@ end
//@ fn src/html.rs unquote_attributes
//@ spec
    ensures unquoted(source@, r@),
//@ start
    broadcast use {group_tags, lemma_unquoted};
    proof {
        reveal_strlit(" "); reveal_strlit("\">"); reveal_strlit("'>"); reveal_strlit("="); reveal_strlit("=\""); reveal_strlit("\"");
        assert(" "@ =~= seq![' ']); assert("\">"@ =~= seq!['"', '>']); assert("'>"@ =~= seq!['\'', '>']);
        assert("="@ =~= seq!['=']); assert("=\""@ =~= seq!['=', '"']); assert("\""@ =~= seq!['"']);
    }
//@ after? let any_tag
    proof { assert(tag_pat(any_tag.pat())) by { reveal(tag_pat); } }
//@ after? let extra_spaces
    proof { assert(shortens(true, extra_spaces.pat(), " "@)) by { reveal(shortens); broadcast use group_form; } }
//@ after? let between_words
    proof { assert(some_least(between_words.pat())) by { reveal(some_least); broadcast use group_form; } }
//@ after? let spaces_before_close
    proof { assert(shortens(true, spaces_before_close.pat(), "\">"@)) by { reveal(shortens); broadcast use group_form; } }
//@ after? let spaces_before_close2
    proof { assert(shortens(true, spaces_before_close2.pat(), "'>"@)) by { reveal(shortens); broadcast use group_form; } }
//@ after? let extra_spaces2
    proof { assert(gap_pat(extra_spaces2.pat())) by { reveal(gap_pat); broadcast use group_form; } }
//@ after? let extra_spaces3
    proof { assert(some_least(extra_spaces3.pat())) by { reveal(some_least); broadcast use group_form; } }
//@ after? let quotes_in_tag
    proof {
        assert(quote_pat(quotes_in_tag.pat())) by {
            reveal(quote_pat); broadcast use group_form;
        }
    }
//@ after let mut __rp1
    let ghost src = source@;
    proof {
        assert(src.take(0) =~= Seq::empty());
    }
//@ loop 1
    invariant __rp1.src() == src, 0 <= __rp1.pos() <= src.len(), tag_pat(__rp1.pat()),
        tag_pat(any_tag.pat()), some_least(between_words.pat()), some_least(extra_spaces3.pat()), gap_pat(extra_spaces2.pat()), quote_pat(quotes_in_tag.pat()),
        shortens(true, spaces_before_close.pat(), "\">"@), shortens(true, spaces_before_close2.pat(), "'>"@), shortens(true, extra_spaces.pat(), " "@),
        edits(tag_rel(), src.take(__rp1.pos()), __out1@),
    ensures edits(tag_rel(), src, __out1@),
    decreases __rp1.left()
//@ loop 1 start
    broadcast use {group_tags, lemma_unquoted};
    proof {
        reveal_strlit(" "); reveal_strlit("\">"); reveal_strlit("'>"); reveal_strlit("="); reveal_strlit("=\""); reveal_strlit("\"");
        assert(" "@ =~= seq![' ']); assert("\">"@ =~= seq!['"', '>']); assert("'>"@ =~= seq!['\'', '>']);
        assert("="@ =~= seq!['=']); assert("=\""@ =~= seq!['=', '"']); assert("\""@ =~= seq!['"']);
    }
    let ghost (i0, o0) = (__rp1.pos(), __out1@);
//@ after __r1 . vx_push
    proof {
        let (a, b) = choose|a: int, b: int| i0 <= a <= b <= src.len() && #[trigger] found(__rp1.pat(), src, a, b, caps.parts()) && __rp1.pos() == b
            && caps.whole() == src.subrange(a, b) && __out1@ == (o0 + src.subrange(i0, a)) + __r1@;
        lemma_tag_hit(__rp1.pat(), src, a, b, caps.parts());
        lemma_step(tag_rel(), src, i0, a, b, o0, __r1@);
    }
//@ loop 2
    invariant shortens(true, extra_spaces.pat(), " "@), " "@.len() == 1, " "@[0] == ' ',
        forall|i: int| 0 <= i < space1_matches@.len() ==> matches(between_words.pat(), (#[trigger] space1_matches@[i]).s@),
        forall|i: int| 0 <= i < space6_matches@.len() ==> matches(extra_spaces3.pat(), (#[trigger] space6_matches@[i]).s@),
        some_least(between_words.pat()), some_least(extra_spaces3.pat()),
        space1_matches@.len() <= usize::MAX, space6_matches@.len() <= usize::MAX,
        pos <= space1_matches@.len() || pos <= space6_matches@.len(), cong(true, cap@, tag@),
    decreases space1_matches@.len() + space6_matches@.len() - pos
//@ loop 2 start
    broadcast use {group_tags, lemma_unquoted};
    let ghost t0 = tag@;
//@ loop 2 end
    proof { lemma_cong_trans(true, cap@, t0, tag@); }
//@ loop 3
    invariant gap_pat(extra_spaces2.pat()), __it3.i <= __it3.v@.len(), cong(true, cap@, output@),
        forall|i: int| 0 <= i < __it3.v@.len() ==> matches(extra_spaces2.pat(), (#[trigger] __it3.v@[i]).s@),
    decreases __it3.v@.len() - __it3.i
//@ loop 3 start
    broadcast use {group_tags, lemma_unquoted};
    let ghost u0 = output@;
//@ loop 3 end
    proof { lemma_cong_trans(true, cap@, u0, output@); }
//@ after let mut __rp2
    let ghost src2 = output@;
    proof { assert(src2.take(0) =~= Seq::empty()); }
//@ loop 4
    invariant quote_pat(quotes_in_tag.pat()), "="@ == seq!['='], "=\""@ == seq!['=', '"'], "\""@ == seq!['"'], __rp2.src() == src2, __rp2.pat() == quotes_in_tag.pat(), 0 <= __rp2.pos() <= src2.len(), edits(quote_rel(), src2.take(__rp2.pos()), __out2@),
    ensures edits(quote_rel(), src2, __out2@),
    decreases __rp2.left()
//@ loop 4 start
    broadcast use {group_tags, lemma_unquoted};
    let ghost (i2, o2) = (__rp2.pos(), __out2@);
//@ after __r2 . vx_push
    proof {
        let (a, b) = choose|a: int, b: int| i2 <= a <= b <= src2.len() && #[trigger] found(__rp2.pat(), src2, a, b, caps.parts()) && __rp2.pos() == b
            && caps.whole() == src2.subrange(a, b) && __out2@ == (o2 + src2.subrange(i2, a)) + __r2@;
        lemma_quote_hit(__rp2.pat(), src2.subrange(a, b), caps.parts(), __r2@);
        lemma_step(quote_rel(), src2, i2, a, b, o2, __r2@);
    }
//@ end
//@ fn src/html.rs minify
//@ spec
    ensures html_ok(source@, r@),
//@ start
    broadcast use group_html;
//@ end
} // mod html
fn main() {}
} // verus!
