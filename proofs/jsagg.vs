//@ include js_types.vs
//@ include js_text.vs
//@ include js_hspec.vs
//@ include js_aspec.vs
// the proof is about machines with 64 bits
global size_of usize == 8;
pub mod astd {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::aspec::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ trusted: std's maps and sets
/// what a key is equal by
pub trait VKey { type V; spec fn kv(&self) -> Self::V; }
impl VKey for str { type V = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VKey for usize { type V = usize; open spec fn kv(&self) -> usize { *self } }
impl<'a> VKey for Token<'a> { type V = J; open spec fn kv(&self) -> J { tv(*self) } }
impl<'b, T: VKey + ?Sized> VKey for &'b T { type V = T::V; open spec fn kv(&self) -> T::V { (*self).kv() } }
/// a HashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(X)]
pub struct VMap<K: VKey, X> { k: Vec<(K, X)> }
impl<K: VKey, X> VMap<K, X> {
    pub uninterp spec fn view(&self) -> Map<K::V, X>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::V, X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, x: X) -> (r: Option<X>) ensures final(self)@ == old(self)@.insert(k.kv(), x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&X>)
        ensures r is Some == self@.contains_key(k.kv()), r is Some ==> *r->0 == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<X>)
        ensures final(self)@ == old(self)@.remove(k.kv()), r is Some == old(self)@.contains_key(k.kv()), r is Some ==> r->0 == old(self)@[k.kv()] { unimplemented!() }
    /// entry(k).or_insert_with(|| x)
    #[verifier::external_body]
    pub fn vx_entry(&mut self, k: K, x: X) -> (r: &mut X)
        ensures *r == (if old(self)@.contains_key(k.kv()) { old(self)@[k.kv()] } else { x }), final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
    /// m[k]
    #[verifier::external_body]
    pub fn vx_at<Q: VKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: &X)
        requires self@.contains_key(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    /// into_iter().collect::<Vec<_>>()
    #[verifier::external_body]
    pub fn vx_entries(self) -> (r: Vec<(K, X)>)
        ensures entries(r@, self@)
    { unimplemented!() }
}
/// a HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VSet<K: VKey> { k: Vec<K> }
impl<K: VKey> VSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()) { unimplemented!() }
    /// the elements, in some order
    #[verifier::external_body]
    pub fn vx_list(&self) -> (r: Vec<&K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i]).kv()),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).kv() != (#[trigger] r@[j]).kv(),
            forall|k: K::V| #[trigger] self@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kv() == k,
    { unimplemented!() }
}
/// a set has at most usize::MAX elements
pub broadcast axiom fn axiom_set_len<K: VKey>(s: VSet<K>) ensures #[trigger] s@.len() <= usize::MAX;
/// the entries of a map, in some order
pub open spec fn entries<K: VKey, X>(r: Seq<(K, X)>, m: Map<K::V, X>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.contains_key((#[trigger] r[i]).0.kv()) && m[r[i].0.kv()] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.kv() != (#[trigger] r[j]).0.kv()
}
/// b is a permutation of a
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|f: Seq<int>, g: Seq<int>| #[trigger] perm_by(a, b, f, g) }
pub open spec fn perm_by<T>(a: Seq<T>, b: Seq<T>, f: Seq<int>, g: Seq<int>) -> bool {
    &&& a.len() == b.len() && f.len() == b.len() && g.len() == b.len()
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < a.len() && b[i] == a[f[i]] && g[f[i]] == i
    &&& forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < a.len() && b[g[i]] == a[i] && f[g[i]] == i
}
pub broadcast proof fn lemma_perm_entries<K: VKey, X>(a: Seq<(K, X)>, b: Seq<(K, X)>, m: Map<K::V, X>)
    requires #[trigger] perm(a, b), #[trigger] entries(a, m)
    ensures entries(b, m)
{
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] perm_by(a, b, f, g);
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key((#[trigger] b[i]).0.kv()) && m[b[i].0.kv()] == b[i].1 by { assert(b[i] == a[f[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.kv() != (#[trigger] b[j]).0.kv() by {
        assert(b[i] == a[f[i]]); assert(b[j] == a[f[j]]);
        if f[i] < f[j] {} else { assert(f[j] < f[i]); }
    }
}
/// sort_unstable_by, whatever the order
#[verifier::external_body]
pub fn vx_sort<T>(v: &mut Vec<T>) ensures perm(old(v)@, final(v)@) { unimplemented!() }

// ================================================================ trusted: text
/// what a text can start with
pub trait VPat { spec fn pat(&self) -> Seq<char>; }
impl VPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VPat for str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl<'b> VPat for &'b str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
pub fn vx_starts<P: VPat>(s: &str, p: P) -> (r: bool) ensures r == starts(s@, p.pat()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
/// s.split(f): what is between the characters for which f holds
#[verifier::external_body]
pub fn vx_split<'b, F: Fn(char) -> bool>(s: &'b str, f: F) -> (r: Vec<&'b str>)
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == !namec(c)
    ensures forall|w: Seq<char>| #[trigger] word_of(s@, w) ==> exists|k: int| 0 <= k < r@.len() && (#[trigger] r@[k])@ == w
{ unimplemented!() }
macro_rules! vx_sep {
    ($c:ident, $e:expr) => { verus_exec_expr!{ |$c: char| -> (r: bool) ensures r == !namec($c) { $e } } }
}
pub(crate) use vx_sep;

// ================================================================ iterators
pub trait VInto: Sized { type It; spec fn starts_at(self, it: Self::It) -> bool; fn vx_it(self) -> (r: Self::It) ensures self.starts_at(r); }
pub fn vx_into_iter<T: VInto>(x: T) -> (r: T::It) ensures x.starts_at(r) { x.vx_it() }
/// the range a..b
pub struct VRange { pub i: usize, pub end: usize }
impl VRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, old(self).i >= old(self).end ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).end ==> r == Some(old(self).i) && final(self).i == old(self).i + 1,
    { if self.i < self.end { self.i = self.i + 1; Some(self.i - 1) } else { None } }
}
impl VInto for core::ops::Range<usize> {
    type It = VRange;
    open spec fn starts_at(self, it: VRange) -> bool { it.i == self.start && it.end == self.end }
    fn vx_it(self) -> (r: VRange) { VRange { i: self.start, end: self.end } }
}
/// the elements of a slice, by reference
pub struct VxIter<'b, T> { pub s: &'b [T], pub i: usize }
impl<'b, T> VxIter<'b, T> {
    pub fn next(&mut self) -> (r: Option<&'b T>)
        ensures final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r is Some && *r->0 == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.s.len() { let r = &self.s[self.i]; self.i += 1; Some(r) } else { None } }
    pub fn peek(&self) -> (r: Option<&'b T>)
        ensures r is Some == (self.i < self.s@.len())
    { if self.i < self.s.len() { Some(&self.s[self.i]) } else { None } }
}
impl<'b, T> VInto for VxIter<'b, T> {
    type It = VxIter<'b, T>;
    open spec fn starts_at(self, it: VxIter<'b, T>) -> bool { it == self }
    fn vx_it(self) -> (r: VxIter<'b, T>) { self }
}
impl<'b, T> VInto for &'b [T] {
    type It = VxIter<'b, T>;
    open spec fn starts_at(self, it: VxIter<'b, T>) -> bool { it.s@ == self@ && it.i == 0 }
    fn vx_it(self) -> (r: VxIter<'b, T>) { VxIter { s: self, i: 0 } }
}
pub fn vx_iter<'b, T>(v: &'b [T]) -> (r: VxIter<'b, T>) ensures r.s@ == v@, r.i == 0 { VxIter { s: v, i: 0 } }
/// &s[a..]
pub fn vx_tail<'b, T>(s: &'b [T], a: usize) -> (r: VxIter<'b, T>) requires a <= s@.len() ensures r.s@ == s@, r.i == a { VxIter { s, i: a } }
/// s.iter().enumerate()
pub struct VEnum<'b, T> { pub s: &'b [T], pub i: usize }
impl<'b, T> VEnum<'b, T> {
    pub fn next(&mut self) -> (r: Option<(usize, &'b T)>)
        ensures final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r is Some && (r->0).0 == old(self).i && *(r->0).1 == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.s.len() { let r = (self.i, &self.s[self.i]); self.i += 1; Some(r) } else { None } }
}
impl<'b, T> VInto for VEnum<'b, T> {
    type It = VEnum<'b, T>;
    open spec fn starts_at(self, it: VEnum<'b, T>) -> bool { it == self }
    fn vx_it(self) -> (r: VEnum<'b, T>) { self }
}
pub fn vx_enum<'b, T>(s: &'b [T]) -> (r: VEnum<'b, T>) ensures r.s@ == s@, r.i == 0 { VEnum { s, i: 0 } }
/// the elements of a vector, moved out
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IntoIter<T> { x: Vec<T> }
impl<T> IntoIter<T> {
    pub uninterp spec fn src(&self) -> Seq<T>;
    pub uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).src() == old(self).src(), 0 <= old(self).idx() <= old(self).src().len(),
            old(self).idx() < old(self).src().len() ==> r == Some(old(self).src()[old(self).idx()]) && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).src().len() ==> r is None && final(self).idx() == old(self).idx(),
    { unimplemented!() }
}
impl<T> VInto for Vec<T> {
    type It = IntoIter<T>;
    open spec fn starts_at(self, it: IntoIter<T>) -> bool { it.src() == self@ && it.idx() == 0 }
    #[verifier::external_body]
    fn vx_it(self) -> (r: IntoIter<T>) { unimplemented!() }
}
impl<'b, T> VInto for &'b Vec<T> {
    type It = VxIter<'b, T>;
    open spec fn starts_at(self, it: VxIter<'b, T>) -> bool { it.s@ == self@ && it.i == 0 }
    fn vx_it(self) -> (r: VxIter<'b, T>) { vx_iter(self.as_slice()) }
}
/// what `extend` puts at the end
pub trait VItems<T> {
    spec fn items(self) -> Seq<T>;
}
impl<T> VItems<T> for Vec<T> {
    open spec fn items(self) -> Seq<T> { self@ }
}
impl<T> VItems<T> for Option<T> {
    open spec fn items(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
}
#[verifier::external_body]
pub fn vx_extend<T, I: VItems<T>>(v: &mut Vec<T>, x: I) ensures final(v)@ == old(v)@ + x.items() { unimplemented!() }
} // mod astd

pub mod small {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::hspec::*;
use super::aspec::*;
use super::astd::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, super::aspec::lemma_starts1};

// ================================================================ code: values
//@ rw & tokens [ $$a + 1 .. ] =>> vx_tail(tokens, $$a + 1)
//@ rw $v . iter ( ) . enumerate ( ) =>> vx_enum($v)
//@ rw tokens [ $$p ] . get_string ( ) . is_some_and ( | $s | $$b ) =>> (match tokens[$$p].get_string() { Some($s) => $$b, None => false })
//@ rw $x . starts_with ( $c ) =>> vx_starts($x, $c)
//@ fn src/js/tools.rs is_whole_value
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires pos < tokens@.len(),
    ensures r == whole(vv(tokens@), pos as int),
//@ start
    let ghost v = vv(tokens@);
    proof { assert(vstd::slice::spec_slice_len(tokens) == tokens@.len()); }
//@ loop 1
    invariant __it1.s@ == tokens@, pos < __it1.i <= tokens@.len(), skip_i(v, pos + 1) == skip_i(v, __it1.i as int),
    ensures skip_i(v, pos + 1) == v.len(),
    decreases tokens@.len() - __it1.i
//@ end
//@ fn src/js/tools.rs is_strings_array
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires forall|k: int| 0 <= k < values@.len() ==> (#[trigger] values@[k]) < tokens@.len(),
    ensures r == lits_only(vv(tokens@), values@),
//@ start
    let ghost v = vv(tokens@);
//@ loop 1
    invariant __it1.s@ == values@, __it1.i <= values@.len(),
        forall|k: int| 0 <= k < __it1.i ==> if k % 2 == 0 { lit(v[(#[trigger] values@[k]) as int]) } else { v[values@[k] as int] == J::Char(ReservedChar::Comma) },
    ensures __it1.i == values@.len(),
    decreases values@.len() - __it1.i
//@ end
} // mod small

//@ include js_help.vs
//@ include js_name.vs
pub mod alem {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::hspec::*;
use super::aspec::*;
use super::nspec::*;
use super::nname::{VariableNameGenerator, lemma_letters};
use super::{ReservedChar, Keyword, Condition, Operation};
// ================================================================ numbers of names
pub open spec fn p62(n: int) -> int decreases n { if n <= 0 { 1 } else { 62 * p62(n - 1) } }
pub proof fn lemma_p62(s: Seq<char>)
    requires all_ok(s), s.len() > 0
    ensures num(s) >= p62(s.len() - 1)
    decreases s.len()
{
    let t = s.drop_first();
    lemma_digit(s[0], s[0]);
    if t.len() > 0 {
        assert forall|k: int| 0 <= k < t.len() implies letter_or_digit(#[trigger] t[k]) by { assert(t[k] == s[k + 1]); }
        lemma_p62(t);
    } else { assert(num(t) == 0); }
}
pub proof fn lemma_p62_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures 1 <= p62(a) <= p62(b)
    decreases b
{ if a < b { lemma_p62_mono(a, b - 1); } else if a > 0 { lemma_p62_mono(a - 1, b - 1); } }
/// a name with a number below 62^12 has at most 12 letters
pub proof fn lemma_short(s: Seq<char>)
    requires all_ok(s), s.len() > 0, num(s) < 0x2_0000_0000_0000_0000int
    ensures s.len() <= 12
{
    lemma_p62(s);
    if s.len() > 12 { lemma_p62_mono(12, s.len() - 1); assert(p62(12) > 0x2_0000_0000_0000_0000int) by (compute_only); }
}
pub proof fn lemma_bytes(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures 0 <= off(s, k) <= 4 * k
    decreases k
{ if k > 0 { lemma_bytes(s, k - 1); lemma_off_next(s, k - 1); lemma_wid(s[k - 1]); } else { lemma_off0(s); } }
/// the number of a created name
pub open spec fn number(w: Seq<char>) -> int { num(w.skip(2)) }
pub open spec fn later(n: int) -> spec_fn(Seq<char>) -> bool { |w: Seq<char>| number(w) >= n }
/// the names of u that may still be met
pub open spec fn rest(u: Set<Seq<char>>, n: int) -> Set<Seq<char>> { u.filter(later(n)) }
pub proof fn lemma_rest(u: Set<Seq<char>>, n: int)
    ensures rest(u, n + 1).len() <= rest(u, n).len() <= u.len(),
        forall|w: Seq<char>| #[trigger] u.contains(w) && number(w) == n ==> rest(u, n + 1).len() < rest(u, n).len(),
{
    let (a, b) = (rest(u, n + 1), rest(u, n));
    vstd::set_lib::lemma_len_subset(a, b);
    vstd::set_lib::lemma_len_subset(b, u);
    assert forall|w: Seq<char>| #[trigger] u.contains(w) && number(w) == n implies a.len() < b.len() by {
        assert(b.contains(w) && !a.contains(w));
        vstd::set_lib::lemma_len_subset(a, b.remove(w));
    }
}
/// the generator makes r_-names, and w is its present one
pub open spec fn makes(g: VariableNameGenerator, w: Seq<char>) -> bool { g.wf() && g.pre() == r_() && w == g.name() }
pub broadcast proof fn lemma_makes(g: VariableNameGenerator, w: Seq<char>)
    requires #[trigger] makes(g, w)
    ensures starts(w, r_()), number(w) == num(g.letters()), w.len() == 2 + g.letters().len(), num(g.letters()) > 0,
        num(g.letters()) < 0x2_0000_0000_0000_0000int ==> w.len() <= 14 && off(w, w.len() as int) <= 56,
{
    lemma_letters(g);
    assert(w.take(2) =~= r_());
    assert(w.skip(2) =~= g.letters());
    lemma_num_pos(g.letters());
    if num(g.letters()) < 0x2_0000_0000_0000_0000int { lemma_short(g.letters()); lemma_bytes(w, w.len() as int); }
}

// ================================================================ what is known during the aggregation
/// the literals met before the n-th token, and where
pub open spec fn strs_ok(v: Seq<J>, n: int, m: Map<J, Vec<usize>>) -> bool {
    forall|k: J| #[trigger] m.contains_key(k) ==> lit(k) && 0 < m[k]@.len() <= n && forall|j: int| 0 <= j < m[k]@.len() ==> (#[trigger] m[k]@[j]) < n && v[m[k]@[j] as int] == k
}
/// the literals that get a variable, and their names
pub open spec fn names_ok(m: Map<J, Vec<usize>>, a: Map<J, String>, u: Set<Seq<char>>, n: int) -> bool {
    &&& forall|k: J| #[trigger] a.contains_key(k) ==> m.contains_key(k) && starts(a[k]@, r_()) && !u.contains(a[k]@) && number(a[k]@) < n
    &&& forall|k: J, l: J| #[trigger] a.contains_key(k) && #[trigger] a.contains_key(l) && k != l ==> a[k]@ != a[l]@
}
/// the literals for which there is a variable already
pub open spec fn olds_ok(v: Seq<J>, t: Seq<(usize, usize)>) -> bool {
    forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).0 < v.len() && t[j].1 < v.len() && lit(v[t[j].0 as int]) && exists|c: int| #[trigger] declared(v, v[t[j].0 as int]->String_0, t[j].1 as int, c) && c != t[j].0
}
/// the variables that are created
pub open spec fn news_ok(v: Seq<J>, u: Set<Seq<char>>, t: Seq<(String, Vec<usize>)>) -> bool {
    &&& forall|j: int| 0 <= j < t.len() ==> starts((#[trigger] t[j]).0@, r_()) && !u.contains(t[j].0@) && at_lit(v, t[j].1@)
    &&& forall|j: int, k: int| 0 <= j < k < t.len() ==> (#[trigger] t[j]).0@ != (#[trigger] t[k]).0@ && v[t[j].1@[0] as int] != v[t[k].1@[0] as int]
}
/// positions of one literal
pub open spec fn at_lit(v: Seq<J>, p: Seq<usize>) -> bool {
    p.len() > 0 && lit(v[p[0] as int]) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < v.len() && v[p[i] as int] == v[p[0] as int]
}
pub open spec fn small_texts(v: Seq<J>) -> bool { v.len() <= 0x7fff_ffff && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is String ==> off(v[i]->String_0, v[i]->String_0.len() as int) <= 0x7fff_ffff }
pub open spec fn dd(v: Seq<J>, t: Seq<(String, Vec<usize>)>) -> Seq<D> { Seq::new(t.len(), |k: int| D { name: t[k].0@, lit: v[t[k].1@[0] as int]->String_0 }) }
/// the tokens after the first n variables were put in
pub open spec fn part(v: Seq<J>, t: Seq<(String, Vec<usize>)>, n: int, w: Seq<J>) -> bool {
    w.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]) == v[i] || exists|k: int| 0 <= k < n && w[i] == J::CreatedVar((#[trigger] t[k]).0@) && v[i] == v[t[k].1@[0] as int]
}


pub open spec fn sepj(t: Option<Token>) -> Option<J> { match t { Some(t) => Some(tv(t)), None => None } }
pub broadcast proof fn lemma_vv_update(v: Seq<Token>, i: int, t: Token)
    requires 0 <= i < v.len()
    ensures #[trigger] vv(v.update(i, t)) == vv(v).update(i, tv(t))
{ assert(vv(v.update(i, t)) =~= vv(v).update(i, tv(t))); }
pub broadcast proof fn lemma_vv_add(a: Seq<Token>, b: Seq<Token>)
    ensures #[trigger] vv(a + b) == vv(a) + vv(b)
{ assert(vv(a + b) =~= vv(a) + vv(b)); }
pub broadcast proof fn lemma_vv_len(v: Seq<Token>)
    ensures #[trigger] vv(v).len() == v.len()
{}
pub proof fn lemma_63()
    ensures num(all_a(2)) == 63
{ assert(all_a(2) =~= cons('a', seq!['a'])); lemma_num_cons('a', seq!['a']); lemma_num_one('a'); }
pub proof fn lemma_hd(d: Seq<D>, k: int)
    requires 0 <= k
    ensures hd(d, k).len() == 2 * k
    decreases k
{ if k > 0 { lemma_hd(d, k - 1); } }
/// all variables are put in
pub open spec fn stage(v: Seq<J>, d: Seq<D>, nv: Seq<J>, t: Seq<J>) -> bool {
    fresh(v, d) && nv == hd(d, d.len() as int) && t.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> stands(v, d, i, #[trigger] t[i])
}
pub proof fn lemma_stage(v: Seq<J>, u: Set<Seq<char>>, s: Seq<(String, Vec<usize>)>, nv: Seq<J>, t: Seq<J>)
    requires news_ok(v, u, s), part(v, s, s.len() as int, t), nv == hd(dd(v, s), s.len() as int), forall|w: Seq<char>| #[trigger] used(v, w) && starts(w, r_()) ==> u.contains(w)
    ensures stage(v, dd(v, s), nv, t)
{
    let d = dd(v, s);
    assert forall|k: int| 0 <= k < d.len() implies starts((#[trigger] d[k]).name, r_()) && !used(v, d[k].name) && lit(J::String(d[k].lit)) && v.contains(J::String(d[k].lit)) by {
        let x = s[k];
        assert(at_lit(v, x.1@));
        assert(v[x.1@[0] as int] == J::String(d[k].lit));
    }
    assert forall|k: int, l: int| 0 <= k < l < d.len() implies (#[trigger] d[k]).name != (#[trigger] d[l]).name by { assert(s[k].0@ != s[l].0@); }
    assert forall|i: int| 0 <= i < v.len() implies stands(v, d, i, #[trigger] t[i]) by {
        if t[i] != v[i] {
            let k = choose|k: int| 0 <= k < s.len() && t[i] == J::CreatedVar((#[trigger] s[k]).0@) && v[i] == v[s[k].1@[0] as int];
            assert(at_lit(v, s[k].1@));
            assert(t[i] == J::CreatedVar(d[k].name) && v[i] == J::String(d[k].lit));
        }
    }
}
/// the first place of the n-th literal is still as it was
pub proof fn lemma_part(v: Seq<J>, u: Set<Seq<char>>, s: Seq<(String, Vec<usize>)>, n: int, t: Seq<J>)
    requires news_ok(v, u, s), 0 <= n < s.len(), part(v, s, n, t)
    ensures at_lit(v, s[n].1@), t[s[n].1@[0] as int] == J::String(dd(v, s)[n].lit), part(v, s, n + 1, t), hd(dd(v, s), n).len() == 2 * n,
        forall|p: int, w: J| 0 <= p < v.len() && v[p] == v[s[n].1@[0] as int] && w == J::CreatedVar(s[n].0@) ==> part(v, s, n + 1, #[trigger] t.update(p, w)),
{
    lemma_hd(dd(v, s), n);
    assert(at_lit(v, s[n].1@));
    let p = s[n].1@[0] as int;
    if t[p] != v[p] {
        let k = choose|k: int| 0 <= k < n && t[p] == J::CreatedVar((#[trigger] s[k]).0@) && v[p] == v[s[k].1@[0] as int];
        assert(v[s[k].1@[0] as int] != v[s[n].1@[0] as int]);
    }
    assert(part(v, s, n + 1, t)) by { lemma_part_more(v, s, n, t); }
    assert forall|p: int, w: J| 0 <= p < v.len() && v[p] == v[s[n].1@[0] as int] && w == J::CreatedVar(s[n].0@) implies part(v, s, n + 1, #[trigger] t.update(p, w)) by { lemma_part_more(v, s, n, t); lemma_part_put(v, s, n, t, p); }
}
pub proof fn lemma_part_more(v: Seq<J>, s: Seq<(String, Vec<usize>)>, n: int, t: Seq<J>)
    requires part(v, s, n, t)
    ensures part(v, s, n + 1, t)
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] t[i]) == v[i] || exists|k: int| 0 <= k < n + 1 && t[i] == J::CreatedVar((#[trigger] s[k]).0@) && v[i] == v[s[k].1@[0] as int] by {
        if t[i] != v[i] { let k = choose|k: int| 0 <= k < n && t[i] == J::CreatedVar((#[trigger] s[k]).0@) && v[i] == v[s[k].1@[0] as int]; assert(0 <= k < n + 1); }
    }
}
pub proof fn lemma_part_put(v: Seq<J>, s: Seq<(String, Vec<usize>)>, n: int, t: Seq<J>, p: int)
    requires 0 <= n < s.len(), part(v, s, n + 1, t), 0 <= p < v.len(), v[p] == v[s[n].1@[0] as int]
    ensures part(v, s, n + 1, t.update(p, J::CreatedVar(s[n].0@)))
{
    let w = t.update(p, J::CreatedVar(s[n].0@));
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] w[i]) == v[i] || exists|k: int| 0 <= k < n + 1 && w[i] == J::CreatedVar((#[trigger] s[k]).0@) && v[i] == v[s[k].1@[0] as int] by {
        if i == p { assert(w[i] == J::CreatedVar(s[n].0@)); }
        else if t[i] != v[i] { let k = choose|k: int| 0 <= k < n + 1 && t[i] == J::CreatedVar((#[trigger] s[k]).0@) && v[i] == v[s[k].1@[0] as int]; assert(w[i] == J::CreatedVar(s[k].0@)); }
    }
}
pub proof fn lemma_aggr(v: Seq<J>, d: Seq<D>, nv: Seq<J>, t: Seq<J>, sep: Option<J>)
    requires stage(v, d, hd(d, d.len() as int), t), nv == front(d, sep)
    ensures aggr(v, nv + t, sep, d), aggregated(v, nv + t, sep)
{
    let o = nv + t;
    assert(o.take(nv.len() as int) =~= nv);
    assert forall|i: int| 0 <= i < v.len() implies stands(v, d, i, #[trigger] o[nv.len() + i]) by { assert(o[nv.len() + i] == t[i]); }
}
pub broadcast proof fn lemma_rest_len(u: Set<Seq<char>>, n: int)
    ensures #[trigger] rest(u, n).len() <= u.len()
{ lemma_rest(u, n); }
/// machine arithmetic on texts and counts below 2^31
pub broadcast proof fn lemma_mul(a: int, b: int)
    ensures 0 <= a <= 0x8000_0100 && 0 <= b <= 0x8000_0100 ==> 0 <= #[trigger] (a * b) <= 0x4000_0200_0000_0000
{ if 0 <= a <= 0x8000_0100 && 0 <= b <= 0x8000_0100 { assert(0 <= a * b <= 0x8000_0100 * 0x8000_0100) by (nonlinear_arith) requires 0 <= a <= 0x8000_0100, 0 <= b <= 0x8000_0100; } }
pub proof fn lemma_old(v: Seq<J>, d: Seq<D>, nv: Seq<J>, t: Seq<J>, s: Seq<(usize, usize)>, j: int)
    requires stage(v, d, nv, t), olds_ok(v, s), 0 <= j < s.len()
    ensures s[j].0 < v.len(), s[j].1 < v.len(), stage(v, d, nv, t.update(s[j].0 as int, t[s[j].1 as int]))
{
    let (p, a) = (s[j].0 as int, s[j].1 as int);
    let c = choose|c: int| #[trigger] declared(v, v[p]->String_0, a, c) && c != p;
    assert(declared(v, v[p]->String_0, a, c));
    assert(stands(v, d, a, t[a]) && !lit(v[a]));
    let w = t.update(p, t[a]);
    assert forall|i: int| 0 <= i < v.len() implies stands(v, d, i, #[trigger] w[i]) by { assert(stands(v, d, i, t[i])); }
}
pub broadcast group group_agg { lemma_rest_len, lemma_mul, lemma_makes, lemma_vv_update, lemma_vv_add, lemma_vv_len }
} // mod alem

pub mod agg {
use vstd::prelude::*;
use vstd::pervasive::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::hspec::*;
use super::aspec::*;
use super::astd::*;
use super::small::*;
use super::help::{get_array, get_variable_name_and_value_positions};
use super::nspec::*;
use super::nname::{VariableNameGenerator, VxText, vx_string, vx_push_str, vx_push_char, lemma_letters};
use super::alem::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, group_agg, super::nspec::group_num, super::aspec::lemma_starts1, super::aspec::lemma_decl, super::astd::lemma_perm_entries, super::astd::axiom_set_len};

// ================================================================ code: names
//@ rw HashMap =>> VMap
//@ rw HashSet =>> VSet
//@ rw t . get_other ( ) . or_else ( || t . get_string ( ) ) =>> (match t.get_other() { Some(__x) => Some(__x), None => t.get_string() })
//@ rw c . is_alphanumeric ( ) =>> vx_alnum(c)
//@ rw tokens . iter ( ) . filter_map ( | t | $$a ) . flat_map ( | s | s . split ( | c : char | $$p ) ) . filter ( | name | $$f ) . collect ( ) =>> { let mut __o = VSet::new(); let mut __i = vx_iter(tokens.0.as_slice()); while let Some(t) = __i.next() { if let Some(s) = $$a { let __v = vx_split(s, vx_sep!(c, $$p)); let mut __w = vx_iter(__v.as_slice()); while let Some(name) = __w.next() { if $$f { __o.insert(*name); } } } } __o }
//@ fn src/js/tools.rs get_used_names
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures forall|w: Seq<char>| #[trigger] used(vv(tokens.0@), w) && starts(w, r_()) ==> r@.contains(w)
//@ start
    let ghost v = vv(tokens.0@);
    proof { reveal_strlit("r_"); assert("r_"@ =~= r_()); }
//@ loop 1
    invariant __i.s@ == tokens.0@, __i.i <= __i.s@.len(), forall|w: Seq<char>| #[trigger] used(v.take(__i.i as int), w) && starts(w, r_()) ==> __o@.contains(w)
    ensures __i.i == v.len()
    decreases __i.s@.len() - __i.i
//@ loop 1 start
    proof { if __i.i < v.len() { lemma_used_step(v, __i.i as int); } else { assert(v.take(v.len() as int) =~= v); } }
//@ loop 2
    invariant __w.s@ == __v@, __w.i <= __w.s@.len(), forall|w: Seq<char>| #[trigger] used(v.take(__i.i - 1), w) && starts(w, r_()) ==> __o@.contains(w),
        forall|k: int| 0 <= k < __w.i ==> starts((#[trigger] __v@[k])@, r_()) ==> __o@.contains(__v@[k]@),
    ensures __w.i == __v@.len()
    decreases __w.s@.len() - __w.i
//@ end
pub open spec fn known(v: Seq<J>, m: Map<Seq<char>, (usize, usize)>) -> bool {
    forall|s: Seq<char>| #[trigger] m.contains_key(s) ==> declared(v, s, m[s].0 as int, m[s].1 as int)
}
//@ rw is_whole_value ( tokens , $$x ) =>> is_whole_value(tokens.0.as_slice(), $$x)
//@ fn src/js/tools.rs get_variables_name
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    ensures forall|w: Seq<char>| #[trigger] used(vv(tokens.0@), w) && starts(w, r_()) ==> r.0@.contains(w),
        known(vv(tokens.0@), r.1@),
//@ start
    let ghost v = vv(tokens.0@);
    proof { reveal_strlit("r_"); assert("r_"@ =~= r_()); assert(v.len() == tokens.0@.len()); }
//@ loop 1
    invariant known(v, variables@),
    decreases v.len() - pos
//@ end

// ================================================================ code: aggregation into variables
impl VxText for usize {
    open spec fn text(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn vx_push(&self, s: &mut String) { unimplemented!() }
}
/// Display of a token (proved in js_print.vs)
impl<'a> VxText for Token<'a> {
    open spec fn text(&self) -> Seq<char> { jtext(tv(*self)) }
    #[verifier::external_body]
    fn vx_push(&self, s: &mut String) { unimplemented!() }
}
//@ rw new_vars . extend ( $$x ) =>> vx_extend(&mut new_vars, $$x)
//@ rw $m . entry ( $$k ) . or_insert_with ( || $$d ) =>> $m.vx_entry($$k, $$d)
//@ rw $m . into_iter ( ) . collect :: < Vec < _ > > ( ) =>> $m.vx_entries()
//@ rw $m . sort_unstable_by ( | a , b | $$e ) =>> vx_sort(&mut $m)
//@ rw next_name . len ( ) =>> vx_len(next_name.as_str())
//@ rw str_token . len ( ) =>> vx_len(str_token)
//@ fn src/js/tools.rs aggregate_strings_inner
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires small_texts(vv(tokens.0@)),
    ensures aggregated(vv(tokens.0@), vv(r.0@), sepj(separation_token)),
//@ start
    let ghost v = vv(tokens.0@);
    let ghost mut gu: Set<Seq<char>> = Set::empty();
    let ghost mut gn: int = 0;
    let ghost mut gd: Seq<D> = Seq::empty();
    proof { reveal_strlit("r_"); assert("r_"@ =~= r_()); lemma_63(); reveal_strlit("="); assert("="@ =~= seq!['=']); }
//@ loop 2
    invariant makes(var_gen, next_name@), num(var_gen.letters()) + rest(all_variables@, num(var_gen.letters())).len() <= 63 + all_variables@.len()
    ensures !all_variables@.contains(next_name@)
    decreases rest(all_variables@, num(var_gen.letters())).len()
//@ loop 2 start
    proof { gn = num(var_gen.letters()); lemma_rest(all_variables@, gn); }
//@ loop 3
    invariant __it3.end == v.len(), __it3.i <= __it3.end, makes(var_gen, next_name@), !all_variables@.contains(next_name@),
        num(var_gen.letters()) + rest(all_variables@, num(var_gen.letters())).len() <= 63 + all_variables@.len() + __it3.i,
        strs_ok(v, __it3.i as int, strs@), names_ok(strs@, validated@, all_variables@, num(var_gen.letters())), olds_ok(v, to_replace@),
    ensures __it3.i == v.len()
    decreases __it3.end - __it3.i
//@ loop 3 start
    proof { lemma_rest(all_variables@, num(var_gen.letters())); if __it3.i < v.len() { assert(v[__it3.i as int] == tv(tokens.0@[__it3.i as int])); } }
//@ loop 4
    invariant makes(var_gen, next_name@), num(var_gen.letters()) + rest(all_variables@, num(var_gen.letters())).len() <= 63 + all_variables@.len() + __it3.i,
        names_ok(strs@, validated@, all_variables@, num(var_gen.letters())),
    ensures !all_variables@.contains(next_name@)
    decreases rest(all_variables@, num(var_gen.letters())).len()
//@ loop 4 start
    proof { gn = num(var_gen.letters()); lemma_rest(all_variables@, gn); }
//@ before let mut ret
    let ghost gm = strs@;
    let ghost gv = validated@;
    proof { gu = all_variables@; }
//@ loop 5
    invariant entries(__it5.src(), gv), 0 <= __it5.idx() <= __it5.src().len(), ret@.len() == __it5.idx(), news_ok(v, gu, ret@), var_gen.wf(),
        forall|j: int| __it5.idx() <= j < __it5.src().len() ==> strs@.contains_key((#[trigger] __it5.src()[j]).0.kv()) && strs@[__it5.src()[j].0.kv()] == gm[__it5.src()[j].0.kv()],
        forall|j: int| 0 <= j < __it5.idx() ==> (#[trigger] ret@[j]).0@ == gv[__it5.src()[j].0.kv()]@ && v[ret@[j].1@[0] as int] == __it5.src()[j].0.kv(),
    ensures news_ok(v, gu, ret@)
    decreases __it5.src().len() - __it5.idx()
//@ loop 1
    invariant news_ok(v, gu, __it1.src()), 0 <= __it1.idx() <= __it1.src().len(), vv(new_vars@) == hd(dd(v, __it1.src()), __it1.idx()), part(v, __it1.src(), __it1.idx(), vv(tokens.0@)), olds_ok(v, to_replace@),
    ensures stage(v, gd, vv(new_vars@), vv(tokens.0@))
    decreases __it1.src().len() - __it1.idx()
//@ loop 1 start
    proof {
        if __it1.idx() < __it1.src().len() { lemma_part(v, gu, __it1.src(), __it1.idx(), vv(tokens.0@)); }
        else { gd = dd(v, __it1.src()); lemma_stage(v, gu, __it1.src(), vv(new_vars@), vv(tokens.0@)); }
    }
//@ loop 6
    invariant part(v, __it1.src(), __it1.idx(), vv(tokens.0@)), 0 <= __it6.idx() <= __it6.src().len(), __it6.src() == __it1.src()[__it1.idx() - 1].1@,
    ensures part(v, __it1.src(), __it1.idx(), vv(tokens.0@))
    decreases __it6.src().len() - __it6.idx()
//@ loop 6 start
    proof { if __it6.idx() < __it6.src().len() { lemma_part_put(v, __it1.src(), __it1.idx() - 1, vv(tokens.0@), __it6.src()[__it6.idx()] as int); } }
//@ loop 7
    invariant olds_ok(v, __it7.src()), 0 <= __it7.idx() <= __it7.src().len(), stage(v, gd, hd(gd, gd.len() as int), vv(tokens.0@)),
    ensures stage(v, gd, hd(gd, gd.len() as int), vv(tokens.0@)),
    decreases __it7.src().len() - __it7.idx()
//@ loop 7 start
    proof { if __it7.idx() < __it7.src().len() { lemma_old(v, gd, hd(gd, gd.len() as int), vv(tokens.0@), __it7.src(), __it7.idx()); } }
//@ before? if ! new_vars . is_empty ( )
    proof { lemma_hd(gd, gd.len() as int); }
//@ before? let len
    proof { assert(off(next_name@, next_name@.len() as int) <= 56); let a = x@.len() as int; let b = off(str_token@, str_token@.len() as int); let c = off(next_name@, next_name@.len() as int);
       lemma_mul(a + 2, b); lemma_mul(a, c); }
//@ before? new_vars . append
    proof { lemma_hd(gd, gd.len() as int); lemma_aggr(v, gd, vv(new_vars@), vv(tokens.0@), sepj(separation_token)); }
//@ before? vx_extend ( & mut new_vars , tokens . 0 )
    proof { assert(vv(new_vars@) =~= front(gd, sepj(separation_token))); lemma_hd(gd, gd.len() as int); lemma_aggr(v, gd, vv(new_vars@), vv(tokens.0@), sepj(separation_token)); }
//@ end
//@ fn src/js/tools.rs aggregate_strings
//@ spec
    requires small_texts(vv(tokens.0@)),
    ensures aggregated(vv(tokens.0@), vv(r.0@), None),
//@ end
//@ fn src/js/tools.rs aggregate_strings_with_separation
//@ spec
    requires small_texts(vv(tokens.0@)),
    ensures aggregated(vv(tokens.0@), vv(r.0@), Some(tv(separation_token))),
//@ end
} // mod agg

pub mod arlem {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::hspec::*;
use super::aspec::*;
use super::astd::*;
use super::alem::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {super::text::group_off, super::alem::lemma_vv_len};

// ================================================================ texts
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
pub proof fn lemma_dec_len(n: int, k: int)
    requires 0 <= n < p10(k), k >= 1
    ensures dec(n).len() <= k
    decreases k
{ if n >= 10 { if k == 1 { assert(p10(1) == 10) by (compute_only); } else { lemma_dec_len(n / 10, k - 1); } } }
/// the digits of a usize
pub broadcast proof fn lemma_dec_usize(n: int)
    requires 0 <= n <= usize::MAX
    ensures 0 <= off(#[trigger] dec(n), dec(n).len() as int) <= 80
{ assert(p10(20) > 0x1_0000_0000_0000_0000int) by (compute_only); lemma_dec_len(n, 20); lemma_bytes(dec(n), dec(n).len() as int); }
pub proof fn lemma_quoted(s: Seq<char>)
    requires quoted(s)
    ensures off(s, 1) == 1, at(s, 1) == 1, is_off(s, 1), off(s, s.len() - 1) == off(s, s.len() as int) - 1, at(s, off(s, s.len() as int) - 1) == s.len() - 1, is_off(s, off(s, s.len() as int) - 1), off(s, s.len() as int) >= 2,
{
    lemma_off_next(s, 0);
    lemma_off_next(s, s.len() - 1);
    lemma_at(s, 1); lemma_at(s, s.len() - 1);
    lemma_off_mono(s, 1, s.len() - 1);
}
pub proof fn lemma_inner_len(s: Seq<char>)
    requires quoted(s)
    ensures 0 <= off(inner(s), inner(s).len() as int) <= off(s, s.len() as int)
{
    let x = inner(s);
    lemma_sub(s, 1, s.len() - 1);
    lemma_off_mono(s, 0, 1); lemma_off_mono(s, s.len() - 1, s.len() as int);
    reveal(off);
    assert(x.take(x.len() as int) =~= x);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_inner(x: Seq<char>)
    ensures inner(dq(x)) == x
{ assert(inner(dq(x)) =~= x); }

// ================================================================ what is known of the texts
pub type X = (usize, Vec<usize>, bool);
/// positions of literals with the text k
pub open spec fn at_text(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, n: int, k: Seq<char>, p: Seq<usize>) -> bool {
    p.len() <= n && forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]) < n && lit(v[p[j] as int]) && inner(v[p[j] as int]->String_0) == k && !ign.contains(p[j]) && ok(p[j] as int)
}
/// the first n tokens have been looked at; t are the elements of the array, gc the texts that are put in, in that order
pub open spec fn book(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>) -> bool {
    &&& gc.len() <= n
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> at_text(v, ign, ok, n, k, m[k].1@) && (!m[k].2 ==> va.contains(k))
    &&& forall|k: Seq<char>| #[trigger] va.contains(k) ==> m.contains_key(k) && if m[k].2 { t.len() <= m[k].0 < t.len() + gc.len() && gc[m[k].0 - t.len()] == k && m[k].1@.len() > 0 } else { m[k].0 < t.len() && inner(t[m[k].0 as int]) == k }
    &&& forall|j: int| 0 <= j < gc.len() ==> va.contains(#[trigger] gc[j]) && m[gc[j]].2 && m[gc[j]].0 == t.len() + j
    &&& forall|j: int| 0 <= j < t.len() ==> va.contains(inner(#[trigger] t[j])) && !m[inner(t[j])].2
}
/// the entry of the text of the n-th token after that token
pub open spec fn pushed(m: Map<Seq<char>, X>, key: Seq<char>, n: int, x: X) -> bool {
    &&& x.1@ == (if m.contains_key(key) { m[key].1@ } else { Seq::empty() }).push(n as usize)
    &&& x.2 == (if m.contains_key(key) { m[key].2 } else { true })
}
pub proof fn lemma_book0(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool)
    ensures book(v, ign, ok, Seq::empty(), 0, Map::empty(), Set::empty(), Seq::empty())
{}
pub proof fn lemma_none(v: Seq<J>, vals: Seq<usize>)
    requires vals.len() == 0
    ensures lits_only(v, vals)
{}
pub proof fn lemma_book_len(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>)
    requires book(v, ign, ok, t, n, m, va, gc)
    ensures gc.len() <= n, forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> m[k].1@.len() <= n
{ assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies m[k].1@.len() <= n by { assert(at_text(v, ign, ok, n, k, m[k].1@)); } }
pub proof fn lemma_all_quoted(v: Seq<J>, i: int)
    requires all_quoted(v), 0 <= i < v.len(), v[i] is String
    ensures quoted(v[i]->String_0)
{}
pub proof fn lemma_lits_only(v: Seq<J>, vals: Seq<usize>, i: int)
    requires lits_only(v, vals), 0 <= i < vals.len()
    ensures if i % 2 == 0 { lit(v[vals[i] as int]) } else { v[vals[i] as int] == J::Char(ReservedChar::Comma) }
{}
pub proof fn lemma_unchanged(v: Seq<J>, name: Seq<char>, sep: Option<J>, ok: spec_fn(int) -> bool)
    ensures match the_array(v, name) { Some((vals, end)) => is_array(v, name, vals, end) && !lits_only(v, vals) ==> arrayed(v, v, name, sep, ok), None => true }
{}
pub proof fn lemma_listed(m: Map<Seq<char>, X>, va: Set<Seq<char>>, l: Seq<&&str>, o: Seq<(usize, &&str)>)
    requires o.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] o[i]).1@ == l[i]@ && o[i].0 == m[l[i]@].0,
        forall|i: int| 0 <= i < l.len() ==> va.contains((#[trigger] l[i]).kv()),
        forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).kv() != (#[trigger] l[j]).kv(),
        forall|k: Seq<char>| #[trigger] va.contains(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).kv() == k,
    ensures listed(m, va, o)
{
    assert forall|i: int| 0 <= i < o.len() implies va.contains((#[trigger] o[i]).1@) && o[i].0 == m[o[i].1@].0 by { assert(va.contains(l[i].kv())); }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).1@ != (#[trigger] o[j]).1@ by { assert(l[i].kv() != l[j].kv()); }
    assert forall|k: Seq<char>| #[trigger] va.contains(k) implies exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).1@ == k by {
        let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).kv() == k;
        assert(o[i].1@ == k);
    }
}
pub proof fn lemma_member(m: Map<Seq<char>, X>, va: Set<Seq<char>>, l: Seq<&&str>, v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, gc: Seq<Seq<char>>, i: int)
    requires forall|i: int| 0 <= i < l.len() ==> va.contains((#[trigger] l[i]).kv()), book(v, ign, ok, t, n, m, va, gc), 0 <= i < l.len()
    ensures m.contains_key(l[i]@)
{ assert(va.contains(l[i].kv())); }
pub proof fn lemma_half0(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool)
    ensures half(v, name, el, ign, ok, v)
{}
pub proof fn lemma_book_skip(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>)
    requires book(v, ign, ok, t, n, m, va, gc)
    ensures book(v, ign, ok, t, n + 1, m, va, gc)
{
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies at_text(v, ign, ok, n + 1, k, m[k].1@) && (!m[k].2 ==> va.contains(k)) by { assert(at_text(v, ign, ok, n, k, m[k].1@)); }
}
pub proof fn lemma_book_pos(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>, x: X)
    requires book(v, ign, ok, t, n, m, va, gc), 0 <= n < v.len() <= 0x7fff_ffff, lit(v[n]), !ign.contains(n as usize), ok(n), pushed(m, inner(v[n]->String_0), n, x)
    ensures x.1@.len() <= n + 1,
        (m.contains_key(inner(v[n]->String_0)) ==> x.0 == m[inner(v[n]->String_0)].0) ==> book(v, ign, ok, t, n + 1, m.insert(inner(v[n]->String_0), x), va, gc),
        !va.contains(inner(v[n]->String_0)) && x.0 == t.len() + gc.len() ==> book(v, ign, ok, t, n + 1, m.insert(inner(v[n]->String_0), x), va.insert(inner(v[n]->String_0)), gc.push(inner(v[n]->String_0))),
{
    let key = inner(v[n]->String_0);
    let w = m.insert(key, x);
    if m.contains_key(key) { assert(at_text(v, ign, ok, n, key, m[key].1@)); }
    assert(at_text(v, ign, ok, n + 1, key, x.1@));
    assert forall|k: Seq<char>| #[trigger] w.contains_key(k) implies at_text(v, ign, ok, n + 1, k, w[k].1@) && (!w[k].2 ==> va.contains(k)) by {
        if k != key { assert(m.contains_key(k)); assert(at_text(v, ign, ok, n, k, m[k].1@)); }
    }
    if !va.contains(key) && x.0 == t.len() + gc.len() {
        let g = gc.push(key);
        let vb = va.insert(key);
        if m.contains_key(key) { assert(m[key].2); }
        assert forall|j: int| 0 <= j < g.len() implies vb.contains(#[trigger] g[j]) && w[g[j]].2 && w[g[j]].0 == t.len() + j by {
            if j < gc.len() { assert(va.contains(gc[j])); assert(g[j] == gc[j]); }
        }
        assert forall|k: Seq<char>| #[trigger] vb.contains(k) implies w.contains_key(k) && if w[k].2 { t.len() <= w[k].0 < t.len() + g.len() && g[w[k].0 - t.len()] == k && w[k].1@.len() > 0 } else { w[k].0 < t.len() && inner(t[w[k].0 as int]) == k } by {
            if k != key { assert(va.contains(k)); }
        }
        assert forall|j: int| 0 <= j < t.len() implies vb.contains(inner(#[trigger] t[j])) && !w[inner(t[j])].2 by { assert(va.contains(inner(t[j]))); }
        assert(book(v, ign, ok, t, n + 1, w, vb, g));
    }
}
/// an element of the array
pub proof fn lemma_book_old(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, m: Map<Seq<char>, X>, va: Set<Seq<char>>, e: Seq<char>, x: X, ign2: Set<usize>)
    requires book(v, ign, ok, t, 0, m, va, Seq::empty()), x.0 == t.len(), x.1@.len() == 0, !x.2
    ensures book(v, ign2, ok, t.push(e), 0, m.insert(inner(e), x), va.insert(inner(e)), Seq::empty())
{
    let (key, u, w, vb) = (inner(e), t.push(e), m.insert(inner(e), x), va.insert(inner(e)));
    assert forall|k: Seq<char>| #[trigger] w.contains_key(k) implies at_text(v, ign2, ok, 0, k, w[k].1@) && (!w[k].2 ==> vb.contains(k)) by {
        if k != key { assert(m.contains_key(k)); assert(at_text(v, ign, ok, 0, k, m[k].1@)); }
    }
    assert forall|k: Seq<char>| #[trigger] vb.contains(k) implies w.contains_key(k) && !w[k].2 && w[k].0 < u.len() && inner(u[w[k].0 as int]) == k by {
        if k != key { assert(va.contains(k)); assert(!m[k].2); assert(u[m[k].0 as int] == t[m[k].0 as int]); }
    }
    assert forall|j: int| 0 <= j < u.len() implies vb.contains(inner(#[trigger] u[j])) && !w[inner(u[j])].2 by { if j < t.len() { assert(u[j] == t[j]); } }
}
pub proof fn lemma_texts(v: Seq<J>, vals: Seq<usize>, i: int)
    requires 0 <= i < vals.len()
    ensures i % 2 == 0 ==> texts(v, vals.take(i + 1)) == texts(v, vals.take(i)).push(v[vals[i] as int]->String_0), i % 2 == 1 ==> texts(v, vals.take(i + 1)) == texts(v, vals.take(i)),
{
    let (a, b) = (texts(v, vals.take(i)), texts(v, vals.take(i + 1)));
    if i % 2 == 0 { assert(b =~= a.push(v[vals[i] as int]->String_0)); } else { assert(b =~= a); }
}
/// the strings of the array are not looked at
pub open spec fn own_ok(vals: Seq<usize>, n: int, ign: Set<usize>) -> bool { forall|k: int| 0 <= k < n && k % 2 == 0 ==> ign.contains(#[trigger] vals[k]) }
pub proof fn lemma_vals(v: Seq<J>, name: Seq<char>, vals: Seq<usize>, end: int)
    requires is_array(v, name, vals, end)
    ensures end < v.len(), forall|k: int| 0 <= k < vals.len() ==> (#[trigger] vals[k]) < v.len()
{ let kw = choose|kw: int| #[trigger] array_at(v, name, kw, vals, end); }

// ================================================================ the order of the elements
/// the texts that have an element, with its number
pub open spec fn listed(m: Map<Seq<char>, X>, va: Set<Seq<char>>, o: Seq<(usize, &&str)>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> va.contains((#[trigger] o[i]).1@) && o[i].0 == m[o[i].1@].0
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).1@ != (#[trigger] o[j]).1@
    &&& forall|k: Seq<char>| #[trigger] va.contains(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).1@ == k
}
pub broadcast proof fn lemma_perm_listed(a: Seq<(usize, &&str)>, b: Seq<(usize, &&str)>, m: Map<Seq<char>, X>, va: Set<Seq<char>>)
    requires #[trigger] perm(a, b), #[trigger] listed(m, va, a)
    ensures listed(m, va, b)
{
    let (f, g) = choose|f: Seq<int>, g: Seq<int>| #[trigger] perm_by(a, b, f, g);
    assert forall|i: int| 0 <= i < b.len() implies va.contains((#[trigger] b[i]).1@) && b[i].0 == m[b[i].1@].0 by { assert(b[i] == a[f[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).1@ != (#[trigger] b[j]).1@ by {
        assert(b[i] == a[f[i]]); assert(b[j] == a[f[j]]);
        if f[i] < f[j] {} else { assert(f[j] < f[i]); }
    }
    assert forall|k: Seq<char>| #[trigger] va.contains(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1@ == k by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1@ == k;
        assert(b[g[i]] == a[i]);
    }
}
pub open spec fn desc(o: Seq<(usize, &&str)>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 >= (#[trigger] o[j]).0 }
/// the texts that are put in come first, the last one first
pub open spec fn order(m: Map<Seq<char>, X>, va: Set<Seq<char>>, base: int, gc: Seq<Seq<char>>, w: Seq<(usize, &&str)>) -> bool {
    &&& w.len() >= gc.len() && (base == 0 ==> w.len() == gc.len())
    &&& forall|k: int| 0 <= k < w.len() ==> va.contains((#[trigger] w[k]).1@) && if k < gc.len() { m[w[k].1@].2 && w[k].1@ == gc[gc.len() - 1 - k] && w[k].0 == base + gc.len() - 1 - k } else { !m[w[k].1@].2 && w[k].0 == m[w[k].1@].0 < base }
}
pub proof fn lemma_head(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>, w: Seq<(usize, &&str)>, k: int)
    requires book(v, ign, ok, t, n, m, va, gc), listed(m, va, w), desc(w), 0 <= k <= gc.len()
    ensures w.len() >= k, forall|i: int| 0 <= i < k ==> (#[trigger] w[i]).1@ == gc[gc.len() - 1 - i] && w[i].0 == t.len() + gc.len() - 1 - i
    decreases k
{
    if k > 0 {
        lemma_head(v, ign, ok, t, n, m, va, gc, w, k - 1);
        let j = gc.len() - k;
        assert(va.contains(gc[j]));
        let q = choose|q: int| 0 <= q < w.len() && (#[trigger] w[q]).1@ == gc[j];
        assert(w[q].0 == t.len() + j);
        if q < k - 1 { assert(w[q].0 == t.len() + gc.len() - 1 - q); }
        if q > k - 1 {
            let x = w[k - 1];
            assert(x.0 >= w[q].0);
            assert(va.contains(x.1@));
            assert(m[x.1@].2);
            let i = x.0 - t.len();
            assert(gc[i] == x.1@);
            if i > j { let y = w[gc.len() - 1 - i]; assert(y.1@ == gc[i]); }
            assert(false);
        }
    }
}
pub proof fn lemma_order(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>, w: Seq<(usize, &&str)>)
    requires book(v, ign, ok, t, n, m, va, gc), listed(m, va, w), desc(w)
    ensures order(m, va, t.len() as int, gc, w)
{
    lemma_head(v, ign, ok, t, n, m, va, gc, w, gc.len() as int);
    assert forall|k: int| 0 <= k < gc.len() implies va.contains((#[trigger] w[k]).1@) && m[w[k].1@].2 by { assert(va.contains(gc[gc.len() - 1 - k])); }
    assert forall|k: int| gc.len() <= k < w.len() implies va.contains((#[trigger] w[k]).1@) && !m[w[k].1@].2 && w[k].0 == m[w[k].1@].0 < t.len() by {
        assert(va.contains(w[k].1@));
        if m[w[k].1@].2 {
            let i = w[k].0 - t.len();
            assert(gc[i] == w[k].1@);
            let y = w[gc.len() - 1 - i];
            assert(y.1@ == gc[i]);
        }
    }
    if t.len() == 0 && w.len() > gc.len() { assert(va.contains(w[gc.len() as int].1@)); }
}

// ================================================================ the new elements
/// how the text k is written in the array
pub open spec fn made(v: Seq<J>, m: Map<Seq<char>, X>, k: Seq<char>) -> Seq<char> { if k.contains('"') { v[m[k].1@[0] as int]->String_0 } else { dq(k) } }
pub open spec fn created(v: Seq<J>, m: Map<Seq<char>, X>, gc: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(gc.len(), |j: int| made(v, m, gc[j])) }
pub proof fn lemma_made(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<Seq<char>>, n: int, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>)
    requires book(v, ign, ok, t, n, m, va, gc), n <= v.len()
    ensures forall|k: Seq<char>| #[trigger] va.contains(k) && m[k].2 ==> inner(made(v, m, k)) == k && elem_of(v, made(v, m, k)),
        forall|j: int| 0 <= j < gc.len() ==> inner(#[trigger] created(v, m, gc)[j]) == gc[j] && elem_of(v, created(v, m, gc)[j]),
        forall|k: int, l: int| 0 <= k < t.len() + gc.len() && t.len() <= l < t.len() + gc.len() && k != l ==> inner(#[trigger] (t + created(v, m, gc))[k]) != inner(#[trigger] (t + created(v, m, gc))[l]),
        forall|k: Seq<char>| #[trigger] va.contains(k) ==> m.contains_key(k) && m[k].0 < t.len() + gc.len() && inner((t + created(v, m, gc))[m[k].0 as int]) == k && at_text(v, ign, ok, n, k, m[k].1@) && (m[k].2 ==> m[k].1@.len() > 0),
{
    assert forall|k: Seq<char>| #[trigger] va.contains(k) && m[k].2 implies inner(made(v, m, k)) == k && elem_of(v, made(v, m, k)) by {
        assert(m.contains_key(k));
        assert(at_text(v, ign, ok, n, k, m[k].1@));
        let p = m[k].1@[0] as int;
        lemma_inner(k);
        assert(lit(v[p]));
    }
    let c = created(v, m, gc);
    assert forall|j: int| 0 <= j < gc.len() implies inner(#[trigger] c[j]) == gc[j] && elem_of(v, c[j]) by { assert(va.contains(gc[j])); }
    let el = t + c;
    assert forall|k: int, l: int| 0 <= k < t.len() + gc.len() && t.len() <= l < t.len() + gc.len() && k != l implies inner(#[trigger] el[k]) != inner(#[trigger] el[l]) by {
        assert(el[l] == c[l - t.len()]);
        assert(m[gc[l - t.len()]].2 && m[gc[l - t.len()]].0 == l);
        if k < t.len() { assert(el[k] == t[k]); assert(!m[inner(t[k])].2); }
        else { assert(el[k] == c[k - t.len()]); assert(m[gc[k - t.len()]].0 == k); }
    }
    assert forall|k: Seq<char>| #[trigger] va.contains(k) implies m.contains_key(k) && m[k].0 < t.len() + gc.len() && inner(el[m[k].0 as int]) == k && at_text(v, ign, ok, n, k, m[k].1@) && (m[k].2 ==> m[k].1@.len() > 0) by {
        assert(m.contains_key(k));
        if m[k].2 { assert(el[m[k].0 as int] == c[m[k].0 - t.len()]); } else { assert(el[m[k].0 as int] == t[m[k].0 as int]); }
    }
}

// ================================================================ replacing
/// the token p is replaced by the element of the array that has its text
pub open spec fn rep1(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, p: usize, o: J) -> bool {
    0 <= p < v.len() && lit(v[p as int]) && ok(p as int) && !ign.contains(p) && exists|k: int| 0 <= k < el.len() && o == #[trigger] at_index(name, k) && inner(el[k]) == inner(v[p as int]->String_0)
}
pub open spec fn reps(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, r: Seq<(usize, Token)>) -> bool {
    forall|j: int| 0 <= j < r.len() ==> rep1(v, name, el, ign, ok, (#[trigger] r[j]).0, tv(r[j].1))
}
pub broadcast proof fn lemma_reps_push(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, r: Seq<(usize, Token)>, x: (usize, Token))
    requires #[trigger] reps(v, name, el, ign, ok, r), rep1(v, name, el, ign, ok, x.0, tv(x.1))
    ensures reps(v, name, el, ign, ok, #[trigger] r.push(x))
{}
pub proof fn lemma_reps0(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool)
    ensures reps(v, name, el, ign, ok, Seq::<(usize, Token)>::empty())
{}
pub proof fn lemma_rep(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, k: Seq<char>, p: Seq<usize>, j: int, idx: int, o: J)
    requires at_text(v, ign, ok, v.len() as int, k, p), v.len() <= 0x7fff_ffff, 0 <= j < p.len(), 0 <= idx < el.len(), o == at_index(name, idx), inner(el[idx]) == k
    ensures rep1(v, name, el, ign, ok, p[j], o)
{}
pub proof fn lemma_small(v: Seq<J>)
    requires small_texts(v)
    ensures v.len() <= 0x7fff_ffff, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is String ==> off(v[i]->String_0, v[i]->String_0.len() as int) <= 0x7fff_ffff
{}
pub open spec fn half(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<J>) -> bool {
    t.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> stands_in(v, name, el, i, #[trigger] t[i]) && (t[i] != v[i] ==> lit(v[i]) && ok(i) && !ign.contains(i as usize))
}
pub proof fn lemma_half(v: Seq<J>, name: Seq<char>, el: Seq<Seq<char>>, ign: Set<usize>, ok: spec_fn(int) -> bool, t: Seq<J>, r: Seq<(usize, Token)>, j: int)
    requires half(v, name, el, ign, ok, t), reps(v, name, el, ign, ok, r), 0 <= j < r.len()
    ensures r[j].0 < v.len(), half(v, name, el, ign, ok, t.update(r[j].0 as int, tv(r[j].1)))
{
    assert(rep1(v, name, el, ign, ok, r[j].0, tv(r[j].1)));
    let w = t.update(r[j].0 as int, tv(r[j].1));
    assert forall|i: int| 0 <= i < v.len() implies stands_in(v, name, el, i, #[trigger] w[i]) && (w[i] != v[i] ==> lit(v[i]) && ok(i) && !ign.contains(i as usize)) by { if i != r[j].0 { assert(w[i] == t[i]); } }
}

// ================================================================ inserting
/// the tokens from the b-th back to the a-th: what they become when each is put where the one before was
pub open spec fn rv(s: Seq<(usize, Token)>, a: int, b: int) -> Seq<J> { Seq::new((b - a) as nat, |i: int| tv(s[b - 1 - i].1)) }
/// the first h go to the front, the others to end
pub open spec fn plan(s: Seq<(usize, Token)>, h: int, end: int, hdr: Seq<J>, body: Seq<J>) -> bool {
    &&& 0 <= h <= s.len() && hdr == rv(s, 0, h) && body == rv(s, h, s.len() as int)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == if i < h { 0 } else { end }
}
pub broadcast proof fn lemma_plan(s: Seq<(usize, Token)>, h: int, end: int, hdr: Seq<J>, body: Seq<J>, x: (usize, Token))
    requires #[trigger] plan(s, h, end, hdr, body), x.0 == end
    ensures plan(#[trigger] s.push(x), h, end, hdr, cons(tv(x.1), body))
{
    let w = s.push(x);
    assert(rv(w, 0, h) =~= hdr);
    assert(rv(w, h, w.len() as int) =~= cons(tv(x.1), body));
}
pub open spec fn placed(t: Seq<J>, s: Seq<(usize, Token)>, h: int, end: int, n: int, o: Seq<J>) -> bool {
    if n <= h { o == rv(s, 0, n) + t } else { let u = rv(s, 0, h) + t; o == u.take(end) + rv(s, h, n) + u.skip(end) }
}
pub proof fn lemma_placed(t: Seq<J>, s: Seq<(usize, Token)>, h: int, end: int, hdr: Seq<J>, body: Seq<J>, n: int, o: Seq<J>)
    requires plan(s, h, end, hdr, body), 0 <= n < s.len(), 0 <= end <= h + t.len(), placed(t, s, h, end, n, o)
    ensures s[n].0 <= o.len(), placed(t, s, h, end, n + 1, o.insert(s[n].0 as int, tv(s[n].1)))
{
    let w = o.insert(s[n].0 as int, tv(s[n].1));
    if n < h { assert(w =~= rv(s, 0, n + 1) + t); }
    else {
        let u = rv(s, 0, h) + t;
        assert(n == h ==> o =~= u.take(end) + rv(s, h, n) + u.skip(end));
        assert(w =~= u.take(end) + rv(s, h, n + 1) + u.skip(end));
    }
}
pub broadcast proof fn lemma_vv_insert(v: Seq<Token>, i: int, t: Token)
    requires 0 <= i <= v.len()
    ensures #[trigger] vv(v.insert(i, t)) == vv(v).insert(i, tv(t))
{ assert(vv(v.insert(i, t)) =~= vv(v).insert(i, tv(t))); }
/// what is put in front when there is no array yet
pub open spec fn header(name: Seq<char>, sep: Option<J>) -> Seq<J> {
    let f = seq![J::CreatedVarDecl("var "@ + name + "="@), J::Char(ReservedChar::OpenBracket), J::Char(ReservedChar::CloseBracket), J::Char(ReservedChar::SemiColon)];
    match sep { Some(t) => f.push(t), None => f }
}
pub proof fn lemma_arr(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, vals: Seq<usize>, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>, name: Seq<char>, t: Seq<J>)
    requires book(v, ign, ok, texts(v, vals), v.len() as int, m, va, gc), half(v, name, texts(v, vals) + created(v, m, gc), ign, ok, t), own_ok(vals, vals.len() as int, ign), lits_only(v, vals)
    ensures arr(v, t, name, texts(v, vals), vals, ok, created(v, m, gc))
{
    lemma_made(v, ign, ok, texts(v, vals), v.len() as int, m, va, gc);
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] t[i]) != v[i] implies ok(i) && forall|k: int| 0 <= k < vals.len() ==> #[trigger] vals[k] != i by {
        assert forall|k: int| 0 <= k < vals.len() implies #[trigger] vals[k] != i by {
            if k % 2 == 0 { assert(ign.contains(vals[k])); } else { assert(v[vals[k] as int] == J::Char(ReservedChar::Comma)); }
        }
    }
}
/// the end of it
pub proof fn lemma_arrayed(v: Seq<J>, ign: Set<usize>, ok: spec_fn(int) -> bool, vals: Seq<usize>, m: Map<Seq<char>, X>, va: Set<Seq<char>>, gc: Seq<Seq<char>>, name: Seq<char>, sep: Option<J>,
    t: Seq<J>, s: Seq<(usize, Token)>, h: int, end: int, hdr: Seq<J>, o: Seq<J>)
    requires book(v, ign, ok, texts(v, vals), v.len() as int, m, va, gc), half(v, name, texts(v, vals) + created(v, m, gc), ign, ok, t), own_ok(vals, vals.len() as int, ign), lits_only(v, vals),
        plan(s, h, end, hdr, list(created(v, m, gc), 0, vals.len() > 0)), placed(t, s, h, end, s.len() as int, o),
        match the_array(v, name) {
            Some((a, e)) => is_array(v, name, a, e) && vals == a && end == e && h == 0,
            None => vals.len() == 0 && if gc.len() == 0 { h == 0 && s.len() == 0 } else { end == 2 && hdr == header(name, sep) },
        },
    ensures arrayed(v, o, name, sep, ok)
{
    let c = created(v, m, gc);
    lemma_arr(v, ign, ok, vals, m, va, gc, name, t);
    match the_array(v, name) {
        Some((a, e)) => {
            lemma_vals(v, name, a, e);
            assert(rv(s, 0, 0) + t =~= t);
            assert(o =~= t.take(e) + list(c, 0, vals.len() > 0) + t.skip(e));
        },
        None => {
            assert(vals =~= Seq::empty());
            assert(texts(v, vals) =~= Seq::empty());
            if gc.len() == 0 { assert(o =~= t); }
            else {
                assert(header(name, sep).take(2) =~= header(name, sep).take(2));
                assert(c.len() > 0);
                assert(s.len() > h) by { if s.len() == h { assert(list(c, 0, false).len() == 0); assert(list(c, 0, false).len() > 0); } }
                assert(o =~= array_front(name, c, sep) + t);
            }
        },
    }
}
pub open spec fn any() -> spec_fn(int) -> bool { |i: int| true }
/// no filter
pub proof fn lemma_any(v: Seq<J>, o: Seq<J>, name: Seq<char>, sep: Option<J>, ok: spec_fn(int) -> bool)
    requires arrayed(v, o, name, sep, ok)
    ensures arrayed(v, o, name, sep, any())
{
    match the_array(v, name) {
        Some((vals, end)) => {
            if lits_only(v, vals) {
                let (t, c) = choose|t: Seq<J>, c: Seq<Seq<char>>| #[trigger] arr(v, t, name, texts(v, vals), vals, ok, c) && o == t.take(end) + list(c, 0, vals.len() > 0) + t.skip(end);
                assert(arr(v, t, name, texts(v, vals), vals, any(), c));
            }
        },
        None => {
            let (t, c) = choose|t: Seq<J>, c: Seq<Seq<char>>| #[trigger] arr(v, t, name, Seq::empty(), Seq::empty(), ok, c) && o == if c.len() == 0 { t } else { array_front(name, c, sep) + t };
            assert(arr(v, t, name, Seq::empty(), Seq::empty(), any(), c));
        },
    }
}
pub broadcast group group_arr { lemma_dec_usize, lemma_perm_listed, lemma_plan, lemma_vv_insert, lemma_reps_push }
} // mod arlem

pub mod arra {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::hspec::*;
use super::aspec::*;
use super::astd::*;
use super::small::*;
use super::help::get_array;
use super::nname::{VxText, vx_string, vx_push_str, vx_push_char};
use super::alem::*;
use super::agg::*;
use super::arlem::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, super::alem::lemma_vv_update, super::alem::lemma_vv_len, group_arr, super::aspec::lemma_starts1};

// ================================================================ trusted
/// n.to_string()
#[verifier::external_body]
pub fn vx_dec(n: usize) -> (r: String) ensures r@ == dec(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
/// sort_unstable_by, the greatest number first
#[verifier::external_body]
pub fn vx_sort_desc<T>(v: &mut Vec<(usize, T)>)
    ensures perm(old(v)@, final(v)@), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 >= (#[trigger] final(v)@[j]).0
{ unimplemented!() }

// ================================================================ code: aggregation into an array
//@ rw st . len ( ) =>> vx_len(st)
//@ rw s . len ( ) =>> vx_len(s)
//@ rw array_name . len ( ) =>> vx_len(array_name)
//@ rw array_pos_str . len ( ) =>> vx_len(array_pos_str.as_str())
//@ rw & $x [ $$a .. $$b ] =>> vx_slice($x, $$a, $$b)
//@ rw array_pos . to_string ( ) =>> vx_dec(array_pos)
//@ rw validated . iter ( ) . map ( | v | $$e ) . collect :: < Vec < _ > > ( ) =>> { let mut __o: Vec<(usize, &&str)> = Vec::new(); let __l = validated.vx_list(); let mut __j = vx_iter(__l.as_slice()); while let Some(__v) = __j.next() { let v = *__v; __o.push($$e); } __o }
//@ rw strs [ $$x ] =>> (*strs.vx_at($$x))
//@ rw $v . sort_unstable_by ( | ( p1 , _ ) , ( p2 , _ ) | p2 . cmp ( p1 ) ) =>> vx_sort_desc(&mut $v)
//@ rw $v . iter ( ) . peekable ( ) =>> vx_iter($v.as_slice())
//@ rw $v . iter ( ) =>> vx_iter($v.as_slice())
//@ rw $v . into_iter ( ) =>> $v
//@ rw s . contains ( '"' ) =>> vx_has(s, '"')
//@ rw literal . to_owned ( ) =>> vx_owned(literal)
//@ rw vec ! [ ] =>> Vec::new()
//@ rw is_strings_array ( & tokens , & values ) =>> is_strings_array(tokens.0.as_slice(), values.as_slice())
pub open spec fn allowed<'a, T: Fn(&Tokens<'a>, usize) -> bool>(filter: T, tokens: Tokens<'a>) -> spec_fn(int) -> bool { |i: int| filter.ensures((&tokens, i as usize), true) }
//@ fn src/js/tools.rs aggregate_strings_into_array_inner
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ spec
    requires small_texts(vv(tokens.0@)), all_quoted(vv(tokens.0@)), off(array_name@, array_name@.len() as int) <= 0x7fff_ffff,
        forall|i: usize| i < tokens.0@.len() ==> #[trigger] filter.requires((&tokens, i)),
    ensures arrayed(vv(tokens.0@), vv(r.0@), array_name@, sepj(separation_token), allowed(filter, tokens)),
//@ start
    hide(book); hide(half); hide(listed); hide(arrayed); hide(all_quoted); hide(lits_only); hide(reps); hide(rep1); hide(small_texts);
    let ghost v = vv(tokens.0@);
    let ghost name = array_name@;
    let ghost ok = allowed(filter, tokens);
    let ghost sep = sepj(separation_token);
    let ghost mut gc: Seq<Seq<char>> = Seq::empty();
    let ghost mut gi: Set<usize> = Set::empty();
    let ghost mut gm: Map<Seq<char>, X> = Map::empty();
    let ghost mut gv: Set<Seq<char>> = Set::empty();
    let ghost mut vals: Seq<usize> = Seq::empty();
    let ghost mut t: Seq<Seq<char>> = Seq::empty();
    let ghost mut gw: Seq<(usize, &&str)> = Seq::empty();
    let ghost mut h: int = 0;
    let ghost mut hdr: Seq<J> = Seq::empty();
    let ghost mut c: Seq<Seq<char>> = Seq::empty();
    let ghost mut end: int = 0;
    let ghost mut t0: Seq<J> = Seq::empty();
    proof {
        assert(v.len() == tokens.0@.len());
        lemma_unchanged(v, name, sep, ok); lemma_small(v);
        reveal_strlit("["); reveal_strlit("]"); reveal_strlit("\""); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert("\""@ =~= seq!['"']);
        match the_array(v, name) { Some((a, e)) => { assert forall|x: Seq<usize>, y: int| is_array(v, name, x, y) implies y < v.len() && forall|k: int| 0 <= k < x.len() ==> (#[trigger] x[k]) < v.len() by { lemma_vals(v, name, x, y); } }, None => {} }
    }
//@ before let mut array_pos =
    proof { lemma_book0(v, Set::empty(), ok); vals = current_array_values@; if vals.len() == 0 { lemma_none(v, vals); } assert(lits_only(v, vals)); assert(texts(v, vals.take(0)) =~= Seq::empty()); end = end_bracket as int; }
//@ loop 1
    invariant __it1.s@ == vals, __it1.i <= vals.len(), array_pos == (__it1.i + 1) / 2, own_ok(vals, __it1.i as int, to_ignore@),
        book(v, to_ignore@, ok, texts(v, vals.take(__it1.i as int)), 0, strs@, validated@, Seq::empty()),
    ensures __it1.i == vals.len(), array_pos == (__it1.i + 1) / 2, own_ok(vals, __it1.i as int, to_ignore@),
        book(v, to_ignore@, ok, texts(v, vals.take(__it1.i as int)), 0, strs@, validated@, Seq::empty()),
    decreases vals.len() - __it1.i
//@ loop 1 start
    proof {
        if __it1.i < vals.len() {
            let i = __it1.i as int;
            lemma_texts(v, vals, i);
            lemma_lits_only(v, vals, i);
            let tt = texts(v, vals.take(i));
            if i % 2 == 0 {
                let e = v[vals[i] as int]->String_0;
                lemma_all_quoted(v, vals[i] as int);
                lemma_quoted(e);
                let (ig, m, va) = (to_ignore@, strs@, validated@);
                assert forall|x: X| x.0 == tt.len() && x.1@.len() == 0 && !x.2 implies book(v, ig.insert(vals[i]), ok, texts(v, vals.take(i + 1)), 0, #[trigger] m.insert(inner(e), x), va.insert(inner(e)), Seq::empty()) by {
                    lemma_book_old(v, ig, ok, tt, m, va, e, x, ig.insert(vals[i]));
                }
            }
        }
    }
//@ loop 1 end
    proof { 
        let i = __it1.i - 1;
        let e = v[vals[i] as int]->String_0;
        if i % 2 == 0 { assert(strs@.contains_key(inner(e)) && validated@.contains(inner(e)) && to_ignore@.contains(vals[i])); }
    }
//@ before let mut array_pos_str
    proof { assert(vals.take(vals.len() as int) =~= vals); t = texts(v, vals); gi = to_ignore@; }
//@ loop 2
    invariant __it2.end == v.len(), __it2.i <= __it2.end, array_pos == t.len() + gc.len(), array_pos_str@ == dec(array_pos as int), book(v, gi, ok, t, __it2.i as int, strs@, validated@, gc),
    ensures __it2.i == v.len(), book(v, gi, ok, t, __it2.i as int, strs@, validated@, gc),
    decreases __it2.end - __it2.i
//@ loop 2 start
    proof {
        if __it2.i < v.len() {
            let n = __it2.i as int;
            let (m, va) = (strs@, validated@);
            lemma_book_skip(v, gi, ok, t, n, m, va, gc);
            lemma_book_len(v, gi, ok, t, n, m, va, gc);
            assert(v[n] == tv(tokens.0@[n]));
            if lit(v[n]) {
                lemma_all_quoted(v, n);
                lemma_quoted(v[n]->String_0);
                let key = inner(v[n]->String_0);
                assert forall|x: X| !gi.contains(n as usize) && ok(n) && pushed(m, key, n, x) && (m.contains_key(key) ==> x.0 == m[key].0) implies x.1@.len() <= n + 1 && book(v, gi, ok, t, n + 1, #[trigger] m.insert(key, x), va, gc) by {
                    lemma_book_pos(v, gi, ok, t, n, m, va, gc, x);
                }
                assert forall|x: X| !gi.contains(n as usize) && ok(n) && pushed(m, key, n, x) && !va.contains(key) && x.0 == t.len() + gc.len() implies book(v, gi, ok, t, n + 1, #[trigger] m.insert(key, x), va.insert(key), gc.push(key)) by {
                    lemma_book_pos(v, gi, ok, t, n, m, va, gc, x);
                }
            }
        }
    }
//@ before? let len = vx_len ( s )
    proof {
        lemma_inner_len(v[pos as int]->String_0);
        let a = x.1@.len() as int; let b = off(s@, s@.len() as int); let d = off(array_pos_str@, array_pos_str@.len() as int);
        lemma_mul(b, a); lemma_mul(off(name, name.len() as int) + d + 2, a);
    }
//@ before x . 0 = array_pos
    proof { gc = gc.push(s@); }
//@ before let mut validated =
    proof { gm = strs@; gv = validated@; }
//@ loop 3
    invariant __j.s@ == __l@, __j.i <= __l@.len(), __o@.len() == __j.i, forall|i: int| 0 <= i < __j.i ==> (#[trigger] __o@[i]).1@ == __l@[i]@ && __o@[i].0 == gm[__l@[i]@].0,
    ensures listed(gm, gv, __o@),
    decreases __l@.len() - __j.i
//@ loop 3 start
    proof {
        if __j.i >= __l@.len() { lemma_listed(gm, gv, __l@, __o@); } else { lemma_member(gm, gv, __l@, v, gi, ok, t, v.len() as int, gc, __j.i as int); }
    }
//@ before? vx_sort_desc
    proof { gw = validated@; assert(listed(gm, gv, gw)); }
//@ before if need_recreate
    proof { assert(perm(gw, validated@)); lemma_perm_listed(gw, validated@, gm, gv); gw = validated@; assert(desc(gw)); assert(listed(gm, gv, gw)); lemma_order(v, gi, ok, t, v.len() as int, gm, gv, gc, gw); lemma_made(v, gi, ok, t, v.len() as int, gm, gv, gc); c = created(v, gm, gc); }
//@ before let mut iter
    proof {
        lemma_half0(v, name, t + c, gi, ok); lemma_reps0(v, name, t + c, gi, ok);
        h = to_insert@.len() as int; end = end_bracket as int; hdr = rv(to_insert@, 0, h);
        if h > 0 { assert(hdr =~= header(name, sep)); }
        assert(rv(to_insert@, h, h) =~= Seq::empty());
        assert(list(c, c.len() as int, vals.len() > 0) == Seq::<J>::empty());
    }
//@ loop 4
    invariant iter.s@ == gw, iter.i <= gw.len(), reps(v, name, t + c, gi, ok, to_replace@),
        plan(to_insert@, h, end, hdr, list(c, if iter.i < gc.len() { gc.len() - iter.i } else { 0 }, vals.len() > 0)),
    ensures iter.i == gw.len(), reps(v, name, t + c, gi, ok, to_replace@), plan(to_insert@, h, end, hdr, list(c, 0, vals.len() > 0)),
    decreases gw.len() - iter.i
//@ loop 4 start
    proof {
        if iter.i < gw.len() {
            let g = gw[iter.i as int];
            assert(gv.contains(g.1@));
            assert(at_text(v, gi, ok, v.len() as int, g.1@, gm[g.1@].1@));
            if iter.i < gc.len() { let a = gc.len() - 1 - iter.i; assert(c[a] == made(v, gm, g.1@)); assert(gm[g.1@].2); assert(list(c, a + 1, vals.len() > 0) == list(c, gc.len() - iter.i, vals.len() > 0)); }
        }
    }
//@ loop 5
    invariant __it5.s@ == tokens_pos@, __it5.i <= tokens_pos@.len(), reps(v, name, t + c, gi, ok, to_replace@),
    ensures reps(v, name, t + c, gi, ok, to_replace@),
    decreases tokens_pos@.len() - __it5.i
//@ loop 5 start
    proof {
        let g = gw[iter.i - 1];
        assert(gv.contains(g.1@));
        assert(at_text(v, gi, ok, v.len() as int, g.1@, gm[g.1@].1@));
        assert(Seq::<char>::empty() + name =~= name);
        assert(tv(array_index) == at_index(name, g.0 as int));
        if __it5.i < tokens_pos@.len() { lemma_rep(v, name, t + c, gi, ok, g.1@, tokens_pos@, __it5.i as int, g.0 as int, at_index(name, g.0 as int)); }
    }
//@ loop 6
    invariant reps(v, name, t + c, gi, ok, __it6.src()), 0 <= __it6.idx() <= __it6.src().len(), tokens.0@.len() == v.len(), half(v, name, t + c, gi, ok, vv(tokens.0@)),
    ensures t0.len() == v.len(), half(v, name, t + c, gi, ok, t0), t0 == vv(tokens.0@), placed(t0, to_insert@, h, end, 0, t0),
    decreases __it6.src().len() - __it6.idx()
//@ loop 6 start
    proof { if __it6.idx() < __it6.src().len() { lemma_half(v, name, t + c, gi, ok, vv(tokens.0@), __it6.src(), __it6.idx()); } else { t0 = vv(tokens.0@); assert(rv(to_insert@, 0, 0) + t0 =~= t0); } }
//@ loop 7
    invariant plan(__it7.src(), h, end, hdr, list(c, 0, vals.len() > 0)), 0 <= __it7.idx() <= __it7.src().len(), placed(t0, __it7.src(), h, end, __it7.idx(), vv(tokens.0@)), __it7.src() == to_insert@,
    ensures arrayed(v, vv(tokens.0@), name, sep, ok),
    decreases __it7.src().len() - __it7.idx()
//@ loop 7 start
    proof {
        if __it7.idx() < __it7.src().len() { lemma_placed(t0, __it7.src(), h, end, hdr, list(c, 0, vals.len() > 0), __it7.idx(), vv(tokens.0@)); }
        else { lemma_arrayed(v, gi, ok, vals, gm, gv, gc, name, sep, t0, __it7.src(), h, end, hdr, vv(tokens.0@)); }
    }
//@ end
pub broadcast proof fn lemma_any_b(v: Seq<J>, o: Seq<J>, name: Seq<char>, sep: Option<J>, ok: spec_fn(int) -> bool)
    requires #[trigger] arrayed(v, o, name, sep, ok)
    ensures arrayed(v, o, name, sep, any())
{ lemma_any(v, o, name, sep, ok); }
} // mod arra
pub mod arrb {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::jt::*;
use super::jtxt::*;
use super::jtok::*;
use super::aspec::*;
use super::astd::*;
use super::alem::*;
use super::arlem::*;
use super::arra::*;
use super::{ReservedChar, Keyword, Condition, Operation};
broadcast use {group_vv, super::arra::lemma_any_b, super::alem::lemma_vv_len};
//@ rw | _ , _ | $$e =>> | __a, __b | $$e
//@ fn src/js/tools.rs aggregate_strings_into_array
//@ spec
    requires small_texts(vv(tokens.0@)), all_quoted(vv(tokens.0@)), off(array_name@, array_name@.len() as int) <= 0x7fff_ffff,
    ensures arrayed(vv(tokens.0@), vv(r.0@), array_name@, None, any()),
//@ end
//@ fn src/js/tools.rs aggregate_strings_into_array_with_separation
//@ spec
    requires small_texts(vv(tokens.0@)), all_quoted(vv(tokens.0@)), off(array_name@, array_name@.len() as int) <= 0x7fff_ffff,
    ensures arrayed(vv(tokens.0@), vv(r.0@), array_name@, Some(tv(separation_token)), any()),
//@ end
//@ fn src/js/tools.rs aggregate_strings_into_array_filter
//@ spec
    requires small_texts(vv(tokens.0@)), all_quoted(vv(tokens.0@)), off(array_name@, array_name@.len() as int) <= 0x7fff_ffff,
        forall|i: usize| i < tokens.0@.len() ==> #[trigger] filter.requires((&tokens, i)),
    ensures arrayed(vv(tokens.0@), vv(r.0@), array_name@, None, allowed(filter, tokens)),
//@ end
//@ fn src/js/tools.rs aggregate_strings_into_array_with_separation_filter
//@ spec
    requires small_texts(vv(tokens.0@)), all_quoted(vv(tokens.0@)), off(array_name@, array_name@.len() as int) <= 0x7fff_ffff,
        forall|i: usize| i < tokens.0@.len() ==> #[trigger] filter.requires((&tokens, i)),
    ensures arrayed(vv(tokens.0@), vv(r.0@), array_name@, Some(tv(separation_token)), allowed(filter, tokens)),
//@ end
} // mod arrb
fn main() {}
}
