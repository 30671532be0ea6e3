pub mod nspec {
use vstd::prelude::*;
use super::base::*;

// ================================================================ the names, as numbers
/// the letters and digits in the order in which they are used
pub open spec fn digit(c: char) -> int {
    if 'a' <= c <= 'z' { c as int - 'a' as int + 1 }
    else if 'A' <= c <= 'Z' { c as int - 'A' as int + 27 }
    else { c as int - '0' as int + 53 }
}
pub open spec fn letter_or_digit(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
pub open spec fn valid(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> letter_or_digit(#[trigger] s[k]) }
/// bijective base 62, the least significant digit first: every positive number is one name
pub open spec fn num(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { digit(s[0]) + 62 * num(s.drop_first()) }
}
pub proof fn lemma_digit(a: char, b: char)
    requires letter_or_digit(a), letter_or_digit(b)
    ensures 1 <= digit(a) <= 62, digit(a) == digit(b) ==> a == b
{}
pub open spec fn all_ok(s: Seq<char>) -> bool { forall|k: int| 0 <= k < s.len() ==> letter_or_digit(#[trigger] s[k]) }
pub proof fn lemma_num_pos(s: Seq<char>)
    requires all_ok(s)
    ensures num(s) >= 0, s.len() > 0 ==> num(s) > 0
    decreases s.len()
{ if s.len() > 0 { lemma_digit(s[0], s[0]); assert(all_ok(s.drop_first())) by { assert forall|k: int| 0 <= k < s.len() - 1 implies letter_or_digit(#[trigger] s.drop_first()[k]) by { assert(s.drop_first()[k] == s[k + 1]); } } lemma_num_pos(s.drop_first()); } }
/// S06: two names with the same number are the same name
pub proof fn lemma_num_inj(s: Seq<char>, t: Seq<char>)
    requires all_ok(s), all_ok(t), num(s) == num(t)
    ensures s == t
    decreases s.len()
{
    lemma_num_pos(s); lemma_num_pos(t);
    if s.len() == 0 || t.len() == 0 { assert(s =~= t); } else {
        let (s1, t1) = (s.drop_first(), t.drop_first());
        assert(all_ok(s1)) by { assert forall|k: int| 0 <= k < s1.len() implies letter_or_digit(#[trigger] s1[k]) by { assert(s1[k] == s[k + 1]); } }
        assert(all_ok(t1)) by { assert forall|k: int| 0 <= k < t1.len() implies letter_or_digit(#[trigger] t1[k]) by { assert(t1[k] == t[k + 1]); } }
        lemma_digit(s[0], t[0]); lemma_digit(s[0], s[0]); lemma_digit(t[0], t[0]);
        assert(num(s1) == num(t1) && digit(s[0]) == digit(t[0])) by (nonlinear_arith)
            requires digit(s[0]) + 62 * num(s1) == digit(t[0]) + 62 * num(t1), 1 <= digit(s[0]) <= 62, 1 <= digit(t[0]) <= 62;
        lemma_num_inj(s1, t1);
        assert(s =~= cons(s[0], s1)); assert(t =~= cons(t[0], t1));
    }
}
pub broadcast proof fn lemma_num_cons(c: char, s: Seq<char>)
    ensures #[trigger] num(cons(c, s)) == digit(c) + 62 * num(s)
{ assert(cons(c, s).drop_first() =~= s); }
pub broadcast proof fn lemma_num_one(c: char)
    ensures #[trigger] num(seq![c]) == digit(c)
{ assert(seq![c].drop_first() =~= Seq::<char>::empty()); assert(num(Seq::<char>::empty()) == 0); }
pub broadcast proof fn lemma_add3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lemma_nil(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group group_num { lemma_num_cons, lemma_num_one, lemma_add3, lemma_nil }
pub open spec fn all_a(n: int) -> Seq<char> { Seq::new(if n > 1 { n as nat } else { 1 }, |k: int| 'a') }
} // mod spec

pub mod nname {
use vstd::prelude::*;
use super::base::*;
use super::nspec::*;
broadcast use group_num;

// ================================================================ trusted: String, and Display into a String
/// a new String, and its text
#[verifier::external_body]
pub fn vx_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
pub fn vx_push_char(s: &mut String, t: char) ensures final(s)@ == old(s)@.push(t) { s.push(t) }
pub trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_push(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.text();
}
impl VxText for char {
    open spec fn text(&self) -> Seq<char> { seq![*self] }
    fn vx_push(&self, s: &mut String) { vx_push_char(s, *self); proof { assert(s@ =~= old(s)@ + seq![*self]); } }
}
impl VxText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self) }
}
impl VxText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self.as_str()) }
}
/// the elements of a slice or array, by reference
pub struct VxIter<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.s.len() { let r = &self.s[self.i]; self.i += 1; Some(r) } else { None } }
}
pub fn vx_into_iter<'a, T, const N: usize>(a: &'a [T; N]) -> (r: VxIter<'a, T>)
    ensures r.s@ == a@, r.i == 0
{ VxIter { s: a.as_slice(), i: 0 } }

// ================================================================ code
//@ rw < 'a > =>> <'a>
//@ type src/js/utils.rs VariableNameGenerator

impl<'a> VariableNameGenerator<'a> {
    /// its letters and digits, the least significant first
    pub open spec fn letters(&self) -> Seq<char> decreases self {
        match self.lower { Some(l) => cons(self.letter, l.letters()), None => seq![self.letter] }
    }
    /// only the first one has a prefix, and every letter is one
    pub open spec fn wf(&self) -> bool decreases self {
        letter_or_digit(self.letter) && match self.lower { Some(l) => l.wf() && l.prepend is None, None => true }
    }
    pub open spec fn pre(&self) -> Seq<char> { match self.prepend { Some(p) => p@, None => Seq::empty() } }
    pub open spec fn depth(&self) -> nat decreases self { match self.lower { Some(l) => l.depth() + 1, None => 1 } }
    /// the name
    pub open spec fn name(&self) -> Seq<char> { self.pre() + self.letters() }
}
pub proof fn lemma_letters(g: VariableNameGenerator)
    requires g.wf()
    ensures all_ok(g.letters()), g.letters().len() > 0
    decreases g
{
    match g.lower {
        Some(l) => { lemma_letters(*l); assert forall|k: int| 0 <= k < g.letters().len() implies letter_or_digit(#[trigger] g.letters()[k]) by { if k > 0 { assert(g.letters()[k] == l.letters()[k - 1]); } } }
        None => {}
    }
}

//@ fn src/js/utils.rs impl=VariableNameGenerator new
//@ spec
    ensures r.wf(), r.prepend == prepend, r.letters() == all_a(nb_letter as int),
    decreases nb_letter
//@ start
    proof { if nb_letter > 1 { assert(all_a(nb_letter as int) =~= cons('a', all_a(nb_letter - 1))); } else { assert(all_a(nb_letter as int) =~= seq!['a']); } }
//@ end
//@ fn src/js/utils.rs impl=VariableNameGenerator incr_letters
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).prepend == old(self).prepend, num(final(self).letters()) == num(old(self).letters()) + 1,
    decreases old(self).depth()
//@ loop 1
    invariant_except_break self == old(self), 
    invariant __it1.i <= __it1.s@.len(), self.wf(), self.prepend == old(self).prepend,
        __it1.s@ == seq![('z', 'A'), ('Z', '0'), ('9', 'a')],
        forall|k: int| 0 <= k < __it1.i ==> self.letter != (#[trigger] __it1.s@[k]).0,
    ensures __it1.i == 3, self == old(self)
    decreases 3 - __it1.i
//@ end
//@ fn src/js/utils.rs impl=VariableNameGenerator next
//@ spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).prepend == old(self).prepend, num(final(self).letters()) == num(old(self).letters()) + 1
//@ end
//@ fn src/js/utils.rs impl=VariableNameGenerator to_string
//@ rw self . prepend . unwrap_or ( $x ) =>> *self.prepend.unwrap_or($x)
//@ spec
    requires self.wf()
    ensures r@ == self.name()
    decreases self
//@ start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ end

// ================================================================ the property, over the contracts
/// S06: the names of steps i < j differ
pub proof fn prop_distinct(a: VariableNameGenerator, b: VariableNameGenerator, i: int, j: int, start: int)
    requires a.wf(), b.wf(), a.prepend == b.prepend, num(a.letters()) == start + i, num(b.letters()) == start + j, i != j
    ensures a.name() != b.name()
{
    lemma_letters(a); lemma_letters(b);
    if a.name() == b.name() {
        assert(a.letters() =~= a.name().skip(a.pre().len() as int));
        assert(b.letters() =~= b.name().skip(b.pre().len() as int));
    }
}
/// S06: n calls of next() after new()
pub fn prop_steps<'a>(prefix: Option<&'a str>, letters: usize, n: usize) -> (r: VariableNameGenerator<'a>)
    ensures r.wf(), r.prepend == prefix, num(r.letters()) == num(all_a(letters as int)) + n,
        exists|l: Seq<char>| #[trigger] valid(l) && r.name() == (match prefix { Some(p) => p@, None => Seq::empty() }) + l
{
    let mut g = VariableNameGenerator::new(prefix, letters);
    let mut i: usize = 0;
    while i < n
        invariant i <= n, g.wf(), g.prepend == prefix, num(g.letters()) == num(all_a(letters as int)) + i
        decreases n - i
    { g.next(); i += 1; }
    proof { lemma_letters(g); assert(valid(g.letters())); }
    g
}
} // mod nname
