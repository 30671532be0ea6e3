pub mod rx {
use vstd::prelude::*;
use super::base::*;
use super::text::*;

// ================================================================ regular expressions
/// a regular expression, as vx reads it from the literal
pub enum Rx {
    Nil,
    L(Seq<char>),
    R(char, char),
    Ws,
    Word,
    Digit,
    NotNl,
    Not(Box<Rx>),
    Alt(Box<Rx>, Box<Rx>),
    Cat(Box<Rx>, Box<Rx>),
    Star(Box<Rx>),
}
pub open spec fn rnot(a: Rx) -> Rx { Rx::Not(Box::new(a)) }
pub open spec fn ralt(a: Rx, b: Rx) -> Rx { Rx::Alt(Box::new(a), Box::new(b)) }
pub open spec fn rcat(a: Rx, b: Rx) -> Rx { Rx::Cat(Box::new(a), Box::new(b)) }
pub open spec fn rstar(a: Rx) -> Rx { Rx::Star(Box::new(a)) }
/// \w and \d of Unicode
pub uninterp spec fn word(c: char) -> bool;
pub uninterp spec fn digit(c: char) -> bool;
pub broadcast axiom fn axiom_word(c: char)
    ensures #[trigger] word(c) ==> !ws(c),
        (c as u32) < 0x80 ==> word(c) == (c == '_' || '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z');
pub broadcast axiom fn axiom_digit(c: char)
    ensures #[trigger] digit(c) ==> word(c), (c as u32) < 0x80 ==> digit(c) == ('0' <= c <= '9');

/// the texts that the expression stands for
pub open spec fn lang(r: Rx, s: Seq<char>) -> bool
    decreases r, s.len()
{
    match r {
        Rx::Nil => s.len() == 0,
        Rx::L(t) => s == t,
        Rx::R(a, b) => s.len() == 1 && a <= s[0] <= b,
        Rx::Ws => s.len() == 1 && ws(s[0]),
        Rx::Word => s.len() == 1 && word(s[0]),
        Rx::Digit => s.len() == 1 && digit(s[0]),
        Rx::NotNl => s.len() == 1 && s[0] != '\n',
        Rx::Not(a) => s.len() == 1 && !lang(*a, s),
        Rx::Alt(a, b) => lang(*a, s) || lang(*b, s),
        Rx::Cat(a, b) => exists|k: int| 0 <= k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(*b, s.skip(k)),
        Rx::Star(a) => s.len() == 0 || exists|k: int| 0 < k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(Rx::Star(a), s.skip(k)),
    }
}
/// a pattern: parts that follow each other; which of them each group is; whether a match is
/// the shortest one at its place
pub struct Pat { pub items: Seq<Rx>, pub grp: Seq<int>, pub short: bool }
pub open spec fn cat(g: Seq<Seq<char>>) -> Seq<char>
    decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { g[0] + cat(g.skip(1)) } }
/// s matches, with these texts for the parts
pub open spec fn hit(p: Pat, s: Seq<char>, g: Seq<Seq<char>>) -> bool {
    g.len() == p.items.len() && cat(g) == s && forall|i: int| 0 <= i < g.len() ==> #[trigger] lang(p.items[i], g[i])
}
pub open spec fn matches(p: Pat, s: Seq<char>) -> bool { exists|g: Seq<Seq<char>>| hit(p, s, g) }
/// what a search finds: a match, the shortest at its place if the pattern is of that kind
#[verifier::opaque]
pub open spec fn found(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>) -> bool {
    &&& 0 <= a <= b <= s.len() && hit(p, s.subrange(a, b), g)
    &&& p.short ==> forall|e: int| a <= e < b ==> !#[trigger] matches(p, s.subrange(a, e))
}
/// no match starts at a place from a on, before b
#[verifier::opaque]
pub open spec fn none_at(p: Pat, s: Seq<char>, a: int, b: int) -> bool {
    forall|i: int, e: int| a <= i < b && i < e <= s.len() ==> !matches(p, #[trigger] s.subrange(i, e))
}

pub proof fn lemma_cat2(g: Seq<Seq<char>>) requires g.len() == 2 ensures cat(g) == g[0] + g[1]
{ reveal_with_fuel(cat, 4); assert(cat(g) =~= g[0] + g[1]); }
pub proof fn lemma_cat3(g: Seq<Seq<char>>) requires g.len() == 3 ensures cat(g) == g[0] + g[1] + g[2]
{ reveal_with_fuel(cat, 5); assert(cat(g) =~= g[0] + g[1] + g[2]); }
pub proof fn lemma_cat4(g: Seq<Seq<char>>) requires g.len() == 4 ensures cat(g) == g[0] + g[1] + g[2] + g[3]
{ reveal_with_fuel(cat, 6); assert(cat(g) =~= g[0] + g[1] + g[2] + g[3]); }
pub proof fn lemma_cat5(g: Seq<Seq<char>>) requires g.len() == 5 ensures cat(g) == g[0] + g[1] + g[2] + g[3] + g[4]
{ reveal_with_fuel(cat, 7); assert(cat(g) =~= g[0] + g[1] + g[2] + g[3] + g[4]); }

// ---- what follows from the form of an expression
/// every character that a one-character expression stands for is such
pub open spec fn cls(r: Rx, f: spec_fn(char) -> bool) -> bool {
    match r {
        Rx::R(a, b) => forall|c: char| a <= c <= b ==> #[trigger] f(c),
        Rx::Ws => forall|c: char| ws(c) ==> #[trigger] f(c),
        Rx::Word => forall|c: char| word(c) ==> #[trigger] f(c),
        Rx::Digit => forall|c: char| digit(c) ==> #[trigger] f(c),
        Rx::NotNl => forall|c: char| c != '\n' ==> #[trigger] f(c),
        _ => forall|c: char| #[trigger] f(c),
    }
}
/// every text consists of such characters
#[verifier::opaque]
pub open spec fn over(r: Rx, f: spec_fn(char) -> bool) -> bool
    decreases r
{
    match r {
        Rx::Nil => true,
        Rx::L(t) => all(t, f),
        Rx::Alt(a, b) => over(*a, f) && over(*b, f),
        Rx::Cat(a, b) => over(*a, f) && over(*b, f),
        Rx::Star(a) => over(*a, f),
        _ => cls(r, f),
    }
}
pub open spec fn all(s: Seq<char>, f: spec_fn(char) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
pub proof fn lemma_over(r: Rx, s: Seq<char>, f: spec_fn(char) -> bool)
    requires over(r, f), lang(r, s)
    ensures all(s, f)
    decreases r, s.len()
{ reveal(over);
    match r {
        Rx::Alt(a, b) => { if lang(*a, s) { lemma_over(*a, s, f); } else { lemma_over(*b, s, f); } }
        Rx::Cat(a, b) => {
            let k = choose|k: int| 0 <= k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(*b, s.skip(k));
            lemma_over(*a, s.take(k), f);
            lemma_over(*b, s.skip(k), f);
            lemma_all_cat(s, k, f);
        }
        Rx::Star(a) => {
            if s.len() > 0 {
                let k = choose|k: int| 0 < k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(Rx::Star(a), s.skip(k));
                lemma_over(*a, s.take(k), f);
                lemma_over(r, s.skip(k), f);
                lemma_all_cat(s, k, f);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_all_cat(s: Seq<char>, k: int, f: spec_fn(char) -> bool)
    requires 0 <= k <= s.len(), all(s.take(k), f), all(s.skip(k), f)
    ensures all(s, f)
{
    assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by {
        if i < k { assert(s.take(k)[i] == s[i]); } else { assert(s.skip(k)[i - k] == s[i]); }
    }
}
/// the length of the shortest text, or less
#[verifier::opaque]
pub open spec fn least(r: Rx) -> int
    decreases r
{
    match r {
        Rx::Nil => 0,
        Rx::L(t) => t.len() as int,
        Rx::Alt(a, b) => if least(*a) < least(*b) { least(*a) } else { least(*b) },
        Rx::Cat(a, b) => least(*a) + least(*b),
        Rx::Star(a) => 0,
        _ => 1,
    }
}
pub proof fn lemma_least(r: Rx, s: Seq<char>)
    requires lang(r, s)
    ensures s.len() >= least(r)
    decreases r
{ reveal(least);
    match r {
        Rx::Alt(a, b) => { if lang(*a, s) { lemma_least(*a, s); } else { lemma_least(*b, s); } }
        Rx::Cat(a, b) => {
            let k = choose|k: int| 0 <= k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(*b, s.skip(k));
            lemma_least(*a, s.take(k));
            lemma_least(*b, s.skip(k));
        }
        _ => {}
    }
}
/// a repetition of an expression that stands for every such character
pub proof fn lemma_star(a: Box<Rx>, s: Seq<char>, f: spec_fn(char) -> bool)
    requires all(s, f), forall|c: char| #[trigger] f(c) ==> lang(*a, seq![c])
    ensures lang(Rx::Star(a), s)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.take(1) =~= seq![s[0]]);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies f(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_star(a, s.skip(1), f);
        assert(lang(*a, s.take(1)));
    }
}
pub broadcast group group_rx { axiom_word, axiom_digit }
} // mod rx

pub mod hspec {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::rx::*;

// ================================================================ replacing
/// a text made of pieces, each of them left as it is or replaced as r says
pub open spec fn firsts(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { firsts(ps.drop_last()) + ps.last().0 } }
pub open spec fn seconds(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else { seconds(ps.drop_last()) + ps.last().1 } }
pub type Rel = spec_fn(Seq<char>, Seq<char>) -> bool;
pub open spec fn made(r: Rel, a: Seq<char>, b: Seq<char>, ps: Seq<(Seq<char>, Seq<char>)>) -> bool {
    firsts(ps) == a && seconds(ps) == b && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 == ps[i].1 || r(ps[i].0, ps[i].1)
}
pub closed spec fn edits(r: Rel, a: Seq<char>, b: Seq<char>) -> bool { exists|ps: Seq<(Seq<char>, Seq<char>)>| made(r, a, b, ps) }
pub broadcast proof fn lemma_edits0(r: Rel)
    ensures #[trigger] edits(r, Seq::empty(), Seq::empty())
{ assert(made(r, Seq::empty(), Seq::empty(), Seq::empty())); }
pub proof fn lemma_edits_push(r: Rel, a: Seq<char>, b: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires edits(r, a, b), p == q || r(p, q)
    ensures edits(r, a + p, b + q)
{
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| made(r, a, b, ps);
    let n = ps.push((p, q));
    assert(n.drop_last() =~= ps);
    assert(made(r, a + p, b + q, n));
}
/// what lies behind the last match
pub broadcast proof fn lemma_edits_rest(r: Rel, s: Seq<char>, i: int, o: Seq<char>)
    requires 0 <= i <= s.len(), edits(r, s.take(i), o)
    ensures #![trigger edits(r, s.take(i), o), s.subrange(i, s.len() as int)] edits(r, s, o + s.subrange(i, s.len() as int)), s.take(s.len() as int) == s
{
    assert(s.take(s.len() as int) =~= s);
    let p = s.subrange(i, s.len() as int);
    lemma_edits_push(r, s.take(i), o, p, p);
    assert(s.take(i) + p =~= s);
}
pub proof fn lemma_edits_weaken(r: Rel, q: Rel, a: Seq<char>, b: Seq<char>)
    requires edits(r, a, b), forall|x: Seq<char>, y: Seq<char>| #[trigger] r(x, y) ==> q(x, y)
    ensures edits(q, a, b)
{
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| made(r, a, b, ps);
    assert(made(q, a, b, ps));
}
/// a match of p becomes t
pub open spec fn lit_rel(p: Pat, t: Seq<char>) -> Rel { |x: Seq<char>, y: Seq<char>| matches(p, x) && y == t }

// ================================================================ white space
/// c, followed by u, of which white space has been shortened: a run of white space is one blank
/// (none before `>`, where gt)
pub open spec fn put(gt: bool, c: char, u: Seq<char>) -> Seq<char> {
    if !ws(c) { cons(c, u) } else if u.len() > 0 && (ws(u[0]) || gt && u[0] == '>') { u } else { cons(' ', u) }
}
pub open spec fn onto(gt: bool, s: Seq<char>, u: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { u } else { put(gt, s[0], onto(gt, s.skip(1), u)) } }
/// the text with its white space shortened
pub open spec fn canon(gt: bool, s: Seq<char>) -> Seq<char> { onto(gt, s, Seq::empty()) }
/// the same text but for the lengths of runs of white space, wherever it stands
pub open spec fn cong(gt: bool, p: Seq<char>, q: Seq<char>) -> bool { forall|u: Seq<char>| #[trigger] onto(gt, p, u) == onto(gt, q, u) }
pub open spec fn is_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> ws(#[trigger] s[i]) }

pub proof fn lemma_onto_cat(gt: bool, a: Seq<char>, b: Seq<char>, u: Seq<char>)
    ensures onto(gt, a + b, u) == onto(gt, a, onto(gt, b, u))
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_onto_cat(gt, a.skip(1), b, u);
    }
}
pub proof fn lemma_onto1(gt: bool, c: char, u: Seq<char>)
    ensures onto(gt, seq![c], u) == put(gt, c, u)
{ assert(seq![c].skip(1) =~= Seq::empty()); reveal_with_fuel(onto, 2); }
pub proof fn lemma_run(gt: bool, s: Seq<char>, u: Seq<char>)
    requires is_ws(s), s.len() > 0
    ensures onto(gt, s, u) == put(gt, ' ', u)
    decreases s.len()
{
    let d = s.skip(1);
    if d.len() == 0 { reveal_with_fuel(onto, 2); }
    else {
        assert forall|i: int| 0 <= i < d.len() implies ws(#[trigger] d[i]) by { assert(d[i] == s[i + 1]); }
        lemma_run(gt, d, u);
        assert(ws(s[0]));
        assert(ws(' '));
    }
}
/// a run of white space is as good as one blank
pub proof fn lemma_cong_run(gt: bool, s: Seq<char>)
    requires is_ws(s), s.len() > 0
    ensures cong(gt, s, seq![' '])
{
    assert forall|u: Seq<char>| #[trigger] onto(gt, s, u) == onto(gt, seq![' '], u) by {
        lemma_run(gt, s, u);
        lemma_onto1(gt, ' ', u);
    }
}
pub proof fn lemma_cong_cat(gt: bool, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    requires cong(gt, a, b), cong(gt, c, d)
    ensures cong(gt, a + c, b + d)
{
    assert forall|u: Seq<char>| #[trigger] onto(gt, a + c, u) == onto(gt, b + d, u) by {
        lemma_onto_cat(gt, a, c, u);
        lemma_onto_cat(gt, b, d, u);
        assert(onto(gt, a, onto(gt, c, u)) == onto(gt, b, onto(gt, c, u)));
    }
}
pub broadcast proof fn lemma_cong_trans(gt: bool, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] cong(gt, a, b), #[trigger] cong(gt, b, c)
    ensures cong(gt, a, c)
{
    assert forall|u: Seq<char>| #[trigger] onto(gt, a, u) == onto(gt, c, u) by { assert(onto(gt, a, u) == onto(gt, b, u)); }
}
pub proof fn lemma_edits_cong(r: Rel, gt: bool, a: Seq<char>, b: Seq<char>)
    requires edits(r, a, b), forall|x: Seq<char>, y: Seq<char>| #[trigger] r(x, y) ==> cong(gt, x, y)
    ensures cong(gt, a, b)
{
    let ps = choose|ps: Seq<(Seq<char>, Seq<char>)>| made(r, a, b, ps);
    lemma_made_cong(r, gt, a, b, ps);
}
proof fn lemma_made_cong(r: Rel, gt: bool, a: Seq<char>, b: Seq<char>, ps: Seq<(Seq<char>, Seq<char>)>)
    requires made(r, a, b, ps), forall|x: Seq<char>, y: Seq<char>| #[trigger] r(x, y) ==> cong(gt, x, y)
    ensures cong(gt, a, b)
    decreases ps.len()
{
    if ps.len() > 0 {
        let d = ps.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 == d[i].1 || r(d[i].0, d[i].1) by { assert(d[i] == ps[i]); }
        lemma_made_cong(r, gt, firsts(d), seconds(d), d);
        let l = ps.last();
        assert(l == ps[ps.len() - 1]);
        assert(cong(gt, l.0, l.1));
        lemma_cong_cat(gt, firsts(d), seconds(d), l.0, l.1);
    }
}
/// outer white space taken away
pub open spec fn trims(s: Seq<char>, r: Seq<char>) -> bool {
    exists|a: int, b: int| #[trigger] trims_at(s, r, a, b)
}
pub open spec fn trims_at(s: Seq<char>, r: Seq<char>, a: int, b: int) -> bool {
    0 <= a <= b <= s.len() && is_ws(s.take(a)) && is_ws(s.skip(b)) && r == s.subrange(a, b) && (r.len() == 0 || !ws(r[0]) && !ws(r.last()))
}
proof fn lemma_trims_le(s: Seq<char>, t: Seq<char>, u: Seq<char>, a: int, b: int, c: int, d: int)
    requires trims_at(s, t, a, b), trims_at(s, u, c, d), t.len() > 0
    ensures c <= a && b <= d
{
    assert(t[0] == s[a] && t.last() == s[b - 1]);
    if c > a { assert(s.take(c)[a] == s[a]); assert(ws(s.take(c)[a])); }
    if d < b { assert(s.skip(d)[b - 1 - d] == s[b - 1]); assert(ws(s.skip(d)[b - 1 - d])); }
}
/// there is one way to trim
pub broadcast proof fn lemma_trims(s: Seq<char>, t: Seq<char>, u: Seq<char>)
    requires #[trigger] trims(s, t), #[trigger] trims(s, u)
    ensures t == u
{
    let (a, b) = choose|a: int, b: int| #[trigger] trims_at(s, t, a, b);
    let (c, d) = choose|c: int, d: int| #[trigger] trims_at(s, u, c, d);
    if t.len() > 0 { lemma_trims_le(s, t, u, a, b, c, d); }
    if u.len() > 0 { lemma_trims_le(s, u, t, c, d, a, b); }
    assert(t =~= u);
}

// ================================================================ plain texts
pub open spec fn occurs(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - t.len() && #[trigger] s.subrange(i, i + t.len()) == t }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.take(t.len() as int) == t }
pub open spec fn ends(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
/// str::replace() of a text that is not empty
pub open spec fn repl(s: Seq<char>, t: Seq<char>, by: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || t.len() == 0 { s }
    else if starts(s, t) { by + repl(s.skip(t.len() as int), t, by) }
    else { cons(s[0], repl(s.skip(1), t, by)) }
}
pub proof fn lemma_repl_cong(gt: bool, s: Seq<char>, t: Seq<char>, by: Seq<char>)
    requires cong(gt, t, by)
    ensures cong(gt, s, repl(s, t, by))
    decreases s.len()
{
    assert forall|u: Seq<char>| #[trigger] onto(gt, s, u) == onto(gt, repl(s, t, by), u) by {
        if s.len() == 0 || t.len() == 0 {}
        else if starts(s, t) {
            let d = s.skip(t.len() as int);
            lemma_repl_cong(gt, d, t, by);
            assert(s =~= t + d);
            lemma_onto_cat(gt, t, d, u);
            lemma_onto_cat(gt, by, repl(d, t, by), u);
            assert(onto(gt, d, u) == onto(gt, repl(d, t, by), u));
            assert(onto(gt, t, onto(gt, d, u)) == onto(gt, by, onto(gt, d, u)));
        } else {
            let d = s.skip(1);
            let e = repl(d, t, by);
            lemma_repl_cong(gt, d, t, by);
            assert(onto(gt, d, u) == onto(gt, e, u));
            assert(cons(s[0], e).skip(1) =~= e);
        }
    }
}
pub open spec fn alow(c: char) -> char { if 'A' <= c <= 'Z' { (c as u32 + 32) as char } else { c } }
/// the same but for the case of the letters a-z
pub open spec fn same_ci(s: Seq<char>, t: Seq<char>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> alow(#[trigger] s[i]) == alow(t[i]) }
pub open spec fn occurs_ci(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - t.len() && same_ci(#[trigger] s.subrange(i, i + t.len()), t) }
/// str::to_lowercase(): what becomes of each character depends on its neighbours outside of ASCII only
pub open spec fn lowers(s: Seq<char>, r: Seq<char>) -> bool {
    exists|im: Seq<Seq<char>>| im.len() == s.len() && #[trigger] cat(im) == r
        && forall|i: int| 0 <= i < s.len() && (s[i] as u32) < 0x80 ==> #[trigger] im[i] == seq![alow(s[i])]
}
proof fn lemma_cat_at(im: Seq<Seq<char>>, i: int, t: Seq<char>)
    requires 0 <= i <= im.len() - t.len(), forall|j: int| i <= j < i + t.len() ==> #[trigger] im[j] == seq![t[j - i]]
    ensures occurs(cat(im), t)
    decreases im.len()
{
    let r = cat(im);
    if i > 0 {
        let d = im.skip(1);
        assert forall|j: int| i - 1 <= j < i - 1 + t.len() implies #[trigger] d[j] == seq![t[j - (i - 1)]] by { assert(d[j] == im[j + 1]); }
        lemma_cat_at(d, i - 1, t);
        let x = choose|x: int| 0 <= x <= cat(d).len() - t.len() && #[trigger] cat(d).subrange(x, x + t.len()) == t;
        let y = x + im[0].len();
        assert(r == im[0] + cat(d));
        assert(r.subrange(y, y + t.len()) =~= cat(d).subrange(x, x + t.len()));
    } else {
        lemma_cat_pre(im, t);
        assert(r.subrange(0, 0 + t.len() as int) =~= r.take(t.len() as int));
    }
}
proof fn lemma_cat_pre(im: Seq<Seq<char>>, t: Seq<char>)
    requires t.len() <= im.len(), forall|j: int| 0 <= j < t.len() ==> #[trigger] im[j] == seq![t[j]]
    ensures starts(cat(im), t)
    decreases t.len()
{
    if t.len() > 0 {
        let (d, e) = (im.skip(1), t.skip(1));
        assert forall|j: int| 0 <= j < e.len() implies #[trigger] d[j] == seq![e[j]] by { assert(d[j] == im[j + 1]); }
        lemma_cat_pre(d, e);
        assert(im[0] == seq![t[0]]);
        assert(cat(im) == im[0] + cat(d));
        assert(cat(im).take(t.len() as int) =~= seq![t[0]] + cat(d).take(e.len() as int));
        assert(seq![t[0]] + e =~= t);
    } else { assert(cat(im).take(0) =~= t); }
}
pub proof fn lemma_lowers(s: Seq<char>, r: Seq<char>, t: Seq<char>)
    requires lowers(s, r), occurs_ci(s, t), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 0x80 && !('A' <= t[i] <= 'Z')
    ensures occurs(r, t)
{
    let im = choose|im: Seq<Seq<char>>| im.len() == s.len() && #[trigger] cat(im) == r
        && forall|i: int| 0 <= i < s.len() && (s[i] as u32) < 0x80 ==> #[trigger] im[i] == seq![alow(s[i])];
    let i = choose|i: int| 0 <= i <= s.len() - t.len() && same_ci(#[trigger] s.subrange(i, i + t.len()), t);
    assert forall|j: int| i <= j < i + t.len() implies #[trigger] im[j] == seq![t[j - i]] by {
        let x = s.subrange(i, i + t.len());
        assert(x[j - i] == s[j]);
        assert(alow(x[j - i]) == alow(t[j - i]));
        assert(alow(t[j - i]) == t[j - i]);
        assert((s[j] as u32) < 0x80);
    }
    lemma_cat_at(im, i, t);
}

// ================================================================ which literal replacements shorten white space
pub open spec fn f_ws() -> spec_fn(char) -> bool { |c: char| ws(c) }
/// white space, at least one character of it
pub open spec fn run_pat(p: Pat) -> bool {
    p.items.len() > 0 && least(p.items[0]) >= 1 && forall|i: int| 0 <= i < p.items.len() ==> over(#[trigger] p.items[i], f_ws())
}
pub open spec fn first(p: Pat, i: int) -> char { p.items[i]->L_0[0] }
/// c, white space, d
pub open spec fn between_pat(p: Pat) -> bool {
    p.items.len() == 4 && p.items[0] == Rx::L(seq![first(p, 0)]) && p.items[3] == Rx::L(seq![first(p, 3)]) && !ws(first(p, 0))
        && over(p.items[1], f_ws()) && over(p.items[2], f_ws()) && least(p.items[1]) >= 1
}
#[verifier::opaque]
pub open spec fn shortens(gt: bool, p: Pat, t: Seq<char>) -> bool {
    ||| run_pat(p) && t == seq![' ']
    ||| between_pat(p) && (t == seq![first(p, 0), ' ', first(p, 3)] || gt && first(p, 3) == '>' && t == seq![first(p, 0), '>'])
}
proof fn lemma_cat_ws(p: Pat, g: Seq<Seq<char>>, s: Seq<char>, k: int)
    requires 0 <= k <= g.len(), g.len() == p.items.len(), cat(g.skip(k)) == s, forall|i: int| 0 <= i < g.len() ==> #[trigger] lang(p.items[i], g[i]) && over(p.items[i], f_ws())
    ensures is_ws(s), forall|i: int| k <= i < g.len() ==> s.len() >= least(#[trigger] p.items[i])
    decreases g.len() - k
{
    if k < g.len() {
        let d = cat(g.skip(k + 1));
        assert(g.skip(k).skip(1) =~= g.skip(k + 1));
        lemma_cat_ws(p, g, d, k + 1);
        assert(lang(p.items[k], g[k]));
        lemma_over(p.items[k], g[k], f_ws());
        lemma_least(p.items[k], g[k]);
        assert(s == g[k] + d);
        assert forall|i: int| 0 <= i < s.len() implies ws(#[trigger] s[i]) by { if i < g[k].len() { assert(f_ws()(g[k][i])); } else { assert(s[i] == d[i - g[k].len()]); } }
    }
}
pub proof fn lemma_shortens(gt: bool, p: Pat, t: Seq<char>, x: Seq<char>)
    requires shortens(gt, p, t), matches(p, x)
    ensures cong(gt, x, t)
{
    reveal(shortens);
    let g = choose|g: Seq<Seq<char>>| hit(p, x, g);
    if run_pat(p) && t == seq![' '] {
        assert(g.skip(0) =~= g);
        lemma_cat_ws(p, g, x, 0);
        lemma_cong_run(gt, x);
    } else {
        let (c, d) = (first(p, 0), first(p, 3));
        lemma_cat4(g);
        assert(lang(p.items[0], g[0]) && lang(p.items[1], g[1]) && lang(p.items[2], g[2]) && lang(p.items[3], g[3]));
        lemma_over(p.items[1], g[1], f_ws());
        lemma_over(p.items[2], g[2], f_ws());
        lemma_least(p.items[1], g[1]);
        let w = g[1] + g[2];
        assert forall|i: int| 0 <= i < w.len() implies ws(#[trigger] w[i]) by { if i < g[1].len() { assert(f_ws()(g[1][i])); } else { assert(f_ws()(g[2][i - g[1].len()])); } }
        assert(x =~= seq![c] + (w + seq![d]));
        assert forall|u: Seq<char>| #[trigger] onto(gt, x, u) == onto(gt, t, u) by {
            let v = put(gt, d, u);
            lemma_onto_cat(gt, seq![c], w + seq![d], u);
            lemma_onto_cat(gt, w, seq![d], u);
            lemma_onto1(gt, d, u);
            lemma_run(gt, w, v);
            lemma_onto1(gt, c, onto(gt, w, v));
            if t == seq![c, ' ', d] {
                assert(t =~= seq![c] + (seq![' '] + seq![d]));
                lemma_onto_cat(gt, seq![c], seq![' '] + seq![d], u);
                lemma_onto_cat(gt, seq![' '], seq![d], u);
                lemma_onto1(gt, ' ', v);
                lemma_onto1(gt, c, put(gt, ' ', v));
            } else {
                assert(t =~= seq![c] + seq![d]);
                lemma_onto_cat(gt, seq![c], seq![d], u);
                lemma_onto1(gt, c, v);
            }
        }
    }
}
pub broadcast proof fn lemma_lit_cong(p: Pat, t: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires #[trigger] edits(lit_rel(p, t), a, b)
    ensures shortens(true, p, t) ==> cong(true, a, b), shortens(false, p, t) ==> cong(false, a, b)
{
    assert forall|gt: bool| #[trigger] shortens(gt, p, t) implies cong(gt, a, b) by {
        assert forall|x: Seq<char>, y: Seq<char>| #[trigger] lit_rel(p, t)(x, y) implies cong(gt, x, y) by { lemma_shortens(gt, p, t, x); }
        lemma_edits_cong(lit_rel(p, t), gt, a, b);
    }
}

// ================================================================ comments
pub open spec fn OPEN() -> Seq<char> { seq!['<', '!', '-', '-'] }
pub open spec fn CLOSE() -> Seq<char> { seq!['-', '-', '>'] }
/// where the first `-->` from k on is, -1 where there is none
pub open spec fn find_close(s: Seq<char>, k: int) -> int
    decreases s.len() - k
{ if k < 0 || k + 3 > s.len() { -1 } else if s.subrange(k, k + 3) == CLOSE() { k } else { find_close(s, k + 1) } }
/// a conditional comment: its text starts with `[`
pub open spec fn conditional(m: Seq<char>) -> bool { exists|t: Seq<char>| #[trigger] trims(repl(m, OPEN(), seq![' ']), t) && starts(t, seq!['[']) }
/// the text with a blank for each comment that is not conditional
pub open spec fn strip(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if starts(s, OPEN()) && find_close(s, 4) >= 4 && find_close(s, 4) + 3 <= s.len() {
        let e = find_close(s, 4) + 3;
        (if conditional(s.take(e)) { s.take(e) } else { seq![' '] }) + strip(s.skip(e))
    }
    else { cons(s[0], strip(s.skip(1))) }
}
#[verifier::opaque]
pub open spec fn comment_pat(p: Pat) -> bool {
    p.short && p.items.len() == 3 && p.items[0] == Rx::L(OPEN()) && p.items[2] == Rx::L(CLOSE())
        && p.items[1] is Star && full(*p.items[1]->Star_0)
}
proof fn lemma_close(s: Seq<char>, k: int)
    ensures find_close(s, k) >= 0 ==> k <= find_close(s, k) <= s.len() - 3 && s.subrange(find_close(s, k), find_close(s, k) + 3) == CLOSE()
    decreases s.len() - k
{ if k < 0 || k + 3 > s.len() {} else if s.subrange(k, k + 3) == CLOSE() {} else { lemma_close(s, k + 1); } }
proof fn lemma_close_at(s: Seq<char>, k: int, e: int)
    requires 0 <= k <= e <= s.len() - 3, s.subrange(e, e + 3) == CLOSE(), forall|j: int| k <= j < e ==> #[trigger] s.subrange(j, j + 3) != CLOSE()
    ensures find_close(s, k) == e
    decreases e - k
{ if k < e { assert(s.subrange(k, k + 3) != CLOSE()); lemma_close_at(s, k + 1, e); } }
/// `<!--`, anything, `-->` matches
proof fn lemma_comment_matches(p: Pat, s: Seq<char>, i: int, e: int)
    requires comment_pat(p), 0 <= i, i + 7 <= e <= s.len(), s.subrange(i, i + 4) == OPEN(), s.subrange(e - 3, e) == CLOSE()
    ensures matches(p, s.subrange(i, e))
{
    reveal(comment_pat);
    let mid = s.subrange(i + 4, e - 3);
    let g = seq![OPEN(), mid, CLOSE()];
    let a = p.items[1]->Star_0;
    let f = |c: char| true;
    reveal(full);
    lemma_star(a, mid, f);
    lemma_cat3(g);
    assert(cat(g) =~= s.subrange(i, e));
    assert(hit(p, s.subrange(i, e), g)) by {
        assert forall|j: int| 0 <= j < g.len() implies #[trigger] lang(p.items[j], g[j]) by { if j == 0 {} else if j == 1 {} else { assert(j == 2); } }
    }
}
pub proof fn lemma_comment_gap(p: Pat, s: Seq<char>, i: int, a: int)
    requires comment_pat(p), 0 <= i <= a <= s.len(), none_at(p, s, i, a)
    ensures strip(s.skip(i)) == s.subrange(i, a) + strip(s.skip(a))
    decreases a - i
{
    reveal(comment_pat);
    reveal(none_at);
    if i < a {
        lemma_comment_gap(p, s, i + 1, a);
        let t = s.skip(i);
        assert(t.skip(1) =~= s.skip(i + 1));
        if starts(t, OPEN()) && find_close(t, 4) >= 4 {
            let e = find_close(t, 4) + 3;
            lemma_close(t, 4);
            assert(s.subrange(i, i + 4) =~= t.take(4));
            assert(s.subrange(i + e - 3, i + e) =~= t.subrange(e - 3, e));
            lemma_comment_matches(p, s, i, i + e);
            assert(false);
        }
        assert(strip(t) == cons(t[0], strip(s.skip(i + 1))));
        assert(s.subrange(i, a) =~= seq![s[i]] + s.subrange(i + 1, a));
        assert(strip(t) =~= s.subrange(i, a) + strip(s.skip(a)));
    } else { assert(s.subrange(i, a) + strip(s.skip(a)) =~= strip(s.skip(i))); }
}
pub proof fn lemma_comment_hit(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>)
    requires comment_pat(p), found(p, s, a, b, g)
    ensures strip(s.skip(a)) == (if conditional(s.subrange(a, b)) { s.subrange(a, b) } else { seq![' '] }) + strip(s.skip(b))
{
    reveal(comment_pat);
    reveal(found);
    let m = s.subrange(a, b);
    let t = s.skip(a);
    lemma_cat3(g);
    assert(lang(p.items[0], g[0]) && lang(p.items[2], g[2]));
    assert(m.len() >= 7 && m.take(4) =~= OPEN() && m.skip(m.len() - 3) =~= CLOSE());
    let e = b - a - 3;
    assert(t.take(4) =~= m.take(4));
    assert(t.subrange(e, e + 3) =~= m.skip(m.len() - 3));
    assert forall|j: int| 4 <= j < e implies #[trigger] t.subrange(j, j + 3) != CLOSE() by {
        if t.subrange(j, j + 3) == CLOSE() {
            assert(s.subrange(a, a + 4) =~= t.take(4));
            assert(s.subrange(a + j, a + j + 3) =~= t.subrange(j, j + 3));
            lemma_comment_matches(p, s, a, a + j + 3);
            assert(!matches(p, s.subrange(a, a + j + 3)));
        }
    }
    lemma_close_at(t, 4, e);
    assert(t.take(e + 3) =~= m);
    assert(t.skip(e + 3) =~= s.skip(b));
}
/// o is what becomes of s up to i
pub closed spec fn stripped(s: Seq<char>, i: int, o: Seq<char>) -> bool { 0 <= i <= s.len() && strip(s) == o + strip(s.skip(i)) }
pub broadcast proof fn lemma_stripped0(s: Seq<char>, o: Seq<char>)
    requires o.len() == 0
    ensures #[trigger] stripped(s, 0, o)
{ assert(s.skip(0) =~= s); assert(o + strip(s) =~= strip(s)); }
pub proof fn lemma_stripped_rest(p: Pat, s: Seq<char>, i: int, o: Seq<char>)
    requires comment_pat(p), stripped(s, i, o), none_at(p, s, i, s.len() as int)
    ensures strip(s) == o + s.subrange(i, s.len() as int)
{
    lemma_comment_gap(p, s, i, s.len() as int);
    assert(strip(s.skip(s.len() as int)) =~= Seq::empty());
    assert(o + (s.subrange(i, s.len() as int) + Seq::<char>::empty()) =~= o + s.subrange(i, s.len() as int));
}
pub proof fn lemma_stripped_hit(p: Pat, s: Seq<char>, i: int, a: int, b: int, g: Seq<Seq<char>>, o: Seq<char>)
    requires comment_pat(p), stripped(s, i, o), i <= a, none_at(p, s, i, a), found(p, s, a, b, g)
    ensures stripped(s, b, (o + s.subrange(i, a)) + (if conditional(s.subrange(a, b)) { s.subrange(a, b) } else { seq![' '] }))
{
    assert(0 <= a <= b <= s.len()) by { reveal(found); }
    lemma_comment_gap(p, s, i, a);
    lemma_comment_hit(p, s, a, b, g);
    let x = if conditional(s.subrange(a, b)) { s.subrange(a, b) } else { seq![' '] };
    assert(o + (s.subrange(i, a) + (x + strip(s.skip(b)))) =~= ((o + s.subrange(i, a)) + x) + strip(s.skip(b)));
}
pub proof fn lemma_comment_nonempty(p: Pat)
    requires comment_pat(p)
    ensures !matches(p, Seq::empty())
{
    reveal(comment_pat);
    if matches(p, Seq::empty()) {
        let g = choose|g: Seq<Seq<char>>| hit(p, Seq::empty(), g);
        lemma_cat3(g);
        assert(lang(p.items[0], g[0]));
        assert(cat(g).len() >= 4);
    }
}
// ================================================================ type attributes of <style> and <script>
pub open spec fn QT() -> Seq<char> { seq!['t', 'y', 'p', 'e', '=', '"', 't', 'e', 'x', 't', '/'] }
pub open spec fn CSS() -> Seq<char> { seq!['c', 's', 's'] }
pub open spec fn JS() -> Seq<char> { seq!['j', 'a', 'v', 'a', 's', 'c', 'r', 'i', 'p', 't'] }
/// white space and `type="text/css"` or `type="text/javascript"`
pub open spec fn type_attr(p: Seq<char>) -> bool {
    exists|w: Seq<char>| is_ws(w) && w.len() > 0 && (p == w + QT() + CSS() + seq!['"'] || p == #[trigger] (w + QT()) + JS() + seq!['"'])
}
pub open spec fn type_rel() -> Rel { |p: Seq<char>, q: Seq<char>| type_attr(p) && q.len() == 0 }
/// a start tag of a style or script element, on one line
pub open spec fn style_tag(p: Seq<char>) -> bool {
    &&& starts(p, seq!['<', 's', 't', 'y', 'l', 'e']) || starts(p, seq!['<', 's', 'c', 'r', 'i', 'p', 't'])
    &&& p.last() == '>' && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] p[i] != '>'
}
pub open spec fn style_rel() -> Rel { |p: Seq<char>, q: Seq<char>| style_tag(p) && edits(type_rel(), p, q) }
pub open spec fn type_pat(p: Pat) -> bool {
    p.items.len() == 5 && over(p.items[0], f_ws()) && over(p.items[1], f_ws()) && least(p.items[0]) >= 1 && p.items[2] == Rx::L(QT())
        && p.items[3] == ralt(Rx::L(CSS()), Rx::L(JS())) && p.items[4] == Rx::L(seq!['"'])
}
pub broadcast proof fn lemma_type_lit(p: Pat, t: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires #[trigger] edits(lit_rel(p, t), a, b), type_pat(p), t.len() == 0
    ensures edits(type_rel(), a, b)
{
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] lit_rel(p, t)(x, y) implies type_rel()(x, y) by {
        let g = choose|g: Seq<Seq<char>>| hit(p, x, g);
        lemma_cat5(g);
        assert(lang(p.items[0], g[0]) && lang(p.items[1], g[1]) && lang(p.items[2], g[2]) && lang(p.items[3], g[3]) && lang(p.items[4], g[4]));
        reveal_with_fuel(lang, 3);
        lemma_over(p.items[0], g[0], f_ws());
        lemma_over(p.items[1], g[1], f_ws());
        lemma_least(p.items[0], g[0]);
        let w = g[0] + g[1];
        assert forall|i: int| 0 <= i < w.len() implies ws(#[trigger] w[i]) by { if i < g[0].len() { assert(f_ws()(g[0][i])); } else { assert(f_ws()(g[1][i - g[0].len()])); } }
        assert(x =~= (w + QT()) + g[3] + seq!['"']);
    }
    lemma_edits_weaken(lit_rel(p, t), type_rel(), a, b);
}
/// any character but the end of the line
pub open spec fn f_nl() -> spec_fn(char) -> bool { |c: char| c != '\n' }
pub open spec fn f_not_gt() -> spec_fn(char) -> bool { |c: char| c != '>' && c != '\n' }
pub open spec fn f_no_gt() -> spec_fn(char) -> bool { |c: char| c != '>' }
pub open spec fn style_pat(p: Pat) -> bool {
    p.short && p.items.len() == 5 && p.items[0] == Rx::L(seq!['<'])
        && p.items[1] == ralt(Rx::L(seq!['s', 't', 'y', 'l', 'e']), Rx::L(seq!['s', 'c', 'r', 'i', 'p', 't']))
        && over(p.items[2], f_no_gt()) && p.items[3] == rstar(Rx::NotNl) && p.items[4] == Rx::L(seq!['>'])
}
/// the shortest match has no `>` but at its end
proof fn lemma_short4(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>, j: int)
    requires found(p, s, a, b, g), p.short, p.items.len() >= 2, p.items[p.items.len() - 2] == rstar(Rx::NotNl), p.items.last() == Rx::L(seq!['>']),
        0 <= j < g[g.len() - 2].len(), g[g.len() - 2][j] == '>'
    ensures false
{
    reveal(found);
    let n = g.len() as int;
    let r = g[n - 2];
    assert(lang(p.items[n - 2], r));
    assert(over(rstar(Rx::NotNl), f_nl())) by { broadcast use group_form; }
    lemma_over(rstar(Rx::NotNl), r, f_nl());
    let r2 = r.take(j);
    assert forall|i: int| 0 <= i < r2.len() implies f_nl()(#[trigger] r2[i]) by { assert(r2[i] == r[i]); assert(f_nl()(r[i])); }
    assert forall|c: char| #[trigger] f_nl()(c) implies lang(Rx::NotNl, seq![c]) by {}
    lemma_star(Box::new(Rx::NotNl), r2, f_nl());
    let h = g.update(n - 2, r2);
    assert(lang(p.items[n - 1], g[n - 1]));
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] lang(p.items[i], h[i]) by { assert(lang(p.items[i], g[i])); }
    lemma_cat_update(g, r2);
    let e = a + cat(h).len();
    let c = cat(g);
    assert(cat(h) =~= s.subrange(a, e)) by {
        let k = cat(g.take(n - 2)).len() as int;
        assert(c == cat(g.take(n - 2)) + r + g[n - 1]);
        assert(g[n - 1] == seq!['>']);
        assert(r2.len() == j);
        assert(cat(h) == c.take(k + j) + seq!['>']);
        assert(c[k + j] == r[j]);
        assert(s.subrange(a, b) == c);
        assert(e == a + k + j + 1);
        assert(cat(h).len() == k + j + 1);
        assert forall|i: int| 0 <= i < k + j + 1 implies cat(h)[i] == #[trigger] s.subrange(a, e)[i] by {
            assert(s.subrange(a, b)[i] == s[a + i]);
            assert(s.subrange(a, e)[i] == s[a + i]);
            if i < k + j { assert(c.take(k + j)[i] == c[i]); assert(cat(h)[i] == c[i]); } else { assert(cat(h)[k + j] == '>'); assert(c[k + j] == '>'); }
        }
    }
    assert(hit(p, s.subrange(a, e), h));
    assert(matches(p, s.subrange(a, e)));
    assert(a <= e < b);
}
/// what becomes of the text when the last part but one is cut short
proof fn lemma_cat_update(g: Seq<Seq<char>>, r: Seq<char>)
    requires g.len() >= 2, r.len() <= g[g.len() - 2].len(), r == g[g.len() - 2].take(r.len() as int)
    ensures cat(g) == cat(g.take(g.len() - 2)) + g[g.len() - 2] + g.last(),
        cat(g.update(g.len() - 2, r)) == cat(g).take((cat(g.take(g.len() - 2)).len() + r.len()) as int) + g.last()
    decreases g.len()
{
    let n = g.len() as int;
    let h = g.update(n - 2, r);
    if n == 2 {
        lemma_cat2(g); lemma_cat2(h);
        assert(g.take(0) =~= Seq::empty());
        assert(cat(g.take(0)) =~= Seq::empty());
        assert(cat(g) =~= cat(g.take(0)) + g[0] + g[1]);
        assert(cat(h) =~= cat(g).take(r.len() as int) + g[1]);
    } else {
        let d = g.skip(1);
        lemma_cat_update(d, r);
        assert(h.skip(1) =~= d.update(n - 3, r));
        assert(g.take(n - 2).skip(1) =~= d.take(n - 3));
        assert(d[n - 3] == g[n - 2] && d.last() == g.last());
        let k = cat(d.take(n - 3));
        assert(cat(g.take(n - 2)) == g[0] + k);
        assert(cat(g) =~= cat(g.take(n - 2)) + g[n - 2] + g.last());
        assert(cat(h) =~= cat(g).take(((g[0] + k).len() + r.len()) as int) + g.last());
    }
}
pub proof fn lemma_style_hit(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>)
    requires style_pat(p), found(p, s, a, b, g)
    ensures style_tag(s.subrange(a, b))
{
    reveal(found);
    let m = s.subrange(a, b);
    lemma_cat5(g);
    assert(lang(p.items[0], g[0]) && lang(p.items[1], g[1]) && lang(p.items[2], g[2]) && lang(p.items[3], g[3]) && lang(p.items[4], g[4]));
    reveal_with_fuel(lang, 3);
    lemma_over(p.items[2], g[2], f_no_gt());
    if g[1] == seq!['s', 't', 'y', 'l', 'e'] { assert(m.take(6) =~= seq!['<', 's', 't', 'y', 'l', 'e']); }
    else { assert(m.take(7) =~= seq!['<', 's', 'c', 'r', 'i', 'p', 't']); }
    let k = 1 + g[1].len() + g[2].len();
    assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != '>' by {
        if i < 1 + g[1].len() {}
        else if i < k { assert(m[i] == g[2][i - 1 - g[1].len()]); assert(f_no_gt()(g[2][i - 1 - g[1].len()])); }
        else if m[i] == '>' { assert(m[i] == g[3][i - k]); lemma_short4(p, s, a, b, g, i - k); }
    }
}

// ================================================================ optional tags
pub open spec fn optional(t: Seq<char>) -> bool {
    t == "</area>"@ || t == "</base>"@ || t == "<body>"@ || t == "</body>"@ || t == "</br>"@ || t == "</col>"@ || t == "</colgroup>"@ || t == "</dd>"@
    || t == "</dt>"@ || t == "<head>"@ || t == "</head>"@ || t == "</hr>"@ || t == "<html>"@ || t == "</html>"@ || t == "</img>"@ || t == "</input>"@
    || t == "</li>"@ || t == "</link>"@ || t == "</meta>"@ || t == "</option>"@ || t == "</param>"@ || t == "<tbody>"@ || t == "</tbody>"@ || t == "</td>"@
    || t == "</tfoot>"@ || t == "</th>"@ || t == "</thead>"@ || t == "</tr>"@ || t == "</basefont>"@ || t == "</isindex>"@
}
pub broadcast proof fn lemma_optional(t: Seq<char>)
    requires #[trigger] optional(t)
    ensures t.len() > 0
{
    reveal_strlit("</area>"); reveal_strlit("</base>"); reveal_strlit("<body>"); reveal_strlit("</body>"); reveal_strlit("</br>"); reveal_strlit("</col>");
    reveal_strlit("</colgroup>"); reveal_strlit("</dd>"); reveal_strlit("</dt>"); reveal_strlit("<head>"); reveal_strlit("</head>"); reveal_strlit("</hr>");
    reveal_strlit("<html>"); reveal_strlit("</html>"); reveal_strlit("</img>"); reveal_strlit("</input>"); reveal_strlit("</li>"); reveal_strlit("</link>");
    reveal_strlit("</meta>"); reveal_strlit("</option>"); reveal_strlit("</param>"); reveal_strlit("<tbody>"); reveal_strlit("</tbody>"); reveal_strlit("</td>");
    reveal_strlit("</tfoot>"); reveal_strlit("</th>"); reveal_strlit("</thead>"); reveal_strlit("</tr>"); reveal_strlit("</basefont>"); reveal_strlit("</isindex>");
}
pub open spec fn without(s: Seq<char>, ts: Seq<Seq<char>>) -> Seq<char>
    decreases ts.len()
{ if ts.len() == 0 { s } else { repl(without(s, ts.drop_last()), ts.last(), Seq::empty()) } }
/// optional tags taken away, one kind after the other
pub closed spec fn drops(s: Seq<char>, r: Seq<char>) -> bool {
    exists|ts: Seq<Seq<char>>| #[trigger] without(s, ts) == r && forall|i: int| 0 <= i < ts.len() ==> optional(#[trigger] ts[i])
}
pub broadcast proof fn lemma_drops0(s: Seq<char>)
    ensures #[trigger] drops(s, s)
{ assert(without(s, Seq::empty()) == s); }
pub broadcast proof fn lemma_drops_push(s: Seq<char>, r: Seq<char>, t: Seq<char>, e: Seq<char>)
    requires drops(s, r), optional(t), e.len() == 0
    ensures #![trigger drops(s, r), repl(r, t, e)] drops(s, repl(r, t, e))
{
    let ts = choose|ts: Seq<Seq<char>>| #[trigger] without(s, ts) == r && forall|i: int| 0 <= i < ts.len() ==> optional(#[trigger] ts[i]);
    let n = ts.push(t);
    assert(n.drop_last() =~= ts);
    assert(e =~= Seq::empty());
    assert(without(s, n) == repl(r, t, Seq::empty()));
}

// ================================================================ tags
/// a start tag, on one line
pub open spec fn tag(p: Seq<char>) -> bool {
    p.len() > 2 && p[0] == '<' && p.last() == '>' && word(p[1]) && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] p[i] != '>' && p[i] != '\n'
}
#[verifier::opaque]
pub open spec fn tag_pat(p: Pat) -> bool {
    p.short && p.items.len() == 4 && p.items[0] == Rx::L(seq!['<']) && p.items[1] == Rx::Word && p.items[2] == rstar(Rx::NotNl) && p.items[3] == Rx::L(seq!['>'])
}
pub proof fn lemma_tag_hit(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>)
    requires tag_pat(p), found(p, s, a, b, g)
    ensures tag(s.subrange(a, b))
{
    reveal(found);
    broadcast use group_rx;
    reveal(tag_pat);
    let m = s.subrange(a, b);
    lemma_cat4(g);
    assert(lang(p.items[0], g[0]) && lang(p.items[1], g[1]) && lang(p.items[2], g[2]) && lang(p.items[3], g[3]));
    assert(over(rstar(Rx::NotNl), f_nl())) by { broadcast use group_form; }
    lemma_over(p.items[2], g[2], f_nl());
    assert(m =~= g[0] + g[1] + g[2] + g[3]);
    assert(word(m[1]) && m[1] == g[1][0]);
    assert forall|i: int| 0 <= i < m.len() - 1 implies #[trigger] m[i] != '>' && m[i] != '\n' by {
        if i < 2 { assert(!ws('\n') == false); }
        else {
            assert(m[i] == g[2][i - 2]);
            assert(f_nl()(g[2][i - 2]));
            if m[i] == '>' { lemma_short4(p, s, a, b, g, i - 2); }
        }
    }
}
pub open spec fn f_val() -> spec_fn(char) -> bool { |c: char| '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '-' || c == '_' || c == '.' }
/// the quotes around the value of width or height
pub open spec fn quoted(n: Seq<char>, v: Seq<char>, p: Seq<char>, q: Seq<char>) -> bool {
    v.len() > 0 && all(v, f_val()) && (n == "width"@ || n == "height"@) && p == n + seq!['=', '"'] + v + seq!['"'] && q == n + seq!['='] + v
}
pub open spec fn quote_rel() -> Rel { |p: Seq<char>, q: Seq<char>| exists|n: Seq<char>, v: Seq<char>| quoted(n, v, p, q) }
/// in a tag: white space shortened, and none before the `>`; the quotes of width and height dropped
pub open spec fn tag_rel() -> Rel { |p: Seq<char>, q: Seq<char>| tag(p) && exists|t: Seq<char>| cong(true, p, t) && #[trigger] edits(quote_rel(), t, q) }
#[verifier::opaque]
pub open spec fn quote_pat(p: Pat) -> bool {
    p.items.len() == 4 && p.items[1] == Rx::L(seq!['=', '"']) && over(p.items[2], f_val()) && least(p.items[2]) >= 1 && p.items[3] == Rx::L(seq!['"'])
        && p.grp.len() == 2 && p.grp[0] == 0 && p.grp[1] == 2
}
pub broadcast proof fn lemma_quote_groups(p: Pat)
    requires #[trigger] quote_pat(p)
    ensures p.items.len() == 4, p.grp.len() == 2, p.grp[0] == 0, p.grp[1] == 2
{ reveal(quote_pat); }
pub broadcast proof fn lemma_found(p: Pat, s: Seq<char>, a: int, b: int, g: Seq<Seq<char>>)
    requires #[trigger] found(p, s, a, b, g)
    ensures hit(p, s.subrange(a, b), g), matches(p, s.subrange(a, b))
{ reveal(found); }
pub proof fn lemma_quote_hit(p: Pat, m: Seq<char>, g: Seq<Seq<char>>, q: Seq<char>)
    requires quote_pat(p), hit(p, m, g)
    ensures q == g[0] + seq!['='] + g[2] && (g[0] == "width"@ || g[0] == "height"@) ==> quote_rel()(m, q),
        q == g[0] + seq!['=', '"'] + g[2] + seq!['"'] ==> q == m,
{
    reveal(quote_pat);
    lemma_cat4(g);
    assert(lang(p.items[1], g[1]) && lang(p.items[2], g[2]) && lang(p.items[3], g[3]));
    lemma_over(p.items[2], g[2], f_val());
    lemma_least(p.items[2], g[2]);
    if q == g[0] + seq!['='] + g[2] && (g[0] == "width"@ || g[0] == "height"@) { assert(quoted(g[0], g[2], m, q)); }
}
/// the least length of a match
#[verifier::opaque]
pub open spec fn some_least(p: Pat) -> bool { p.items.len() > 0 && least(p.items[0]) >= 1 }
pub broadcast proof fn lemma_nonempty(p: Pat, s: Seq<char>)
    requires #[trigger] matches(p, s), some_least(p)
    ensures s.len() > 0
{
    reveal(some_least);
    let g = choose|g: Seq<Seq<char>>| hit(p, s, g);
    let i = 0;
    assert(lang(p.items[i], g[i]));
    lemma_least(p.items[i], g[i]);
    lemma_cat_len(g, i);
}
proof fn lemma_cat_len(g: Seq<Seq<char>>, i: int)
    requires 0 <= i < g.len()
    ensures cat(g).len() >= g[i].len()
    decreases g.len()
{ if i > 0 { lemma_cat_len(g.skip(1), i - 1); } }
pub broadcast proof fn lemma_repl_cong_gt(s: Seq<char>, t: Seq<char>, by: Seq<char>)
    requires cong(true, t, by)
    ensures cong(true, s, #[trigger] repl(s, t, by))
{ lemma_repl_cong(true, s, t, by); }

// ---- a character, white space, more
#[verifier::opaque]
pub open spec fn head1(r: Rx, f: spec_fn(char) -> bool) -> bool
    decreases r
{
    match r {
        Rx::Nil => false,
        Rx::L(t) => t.len() > 0 && f(t[0]),
        Rx::Alt(a, b) => head1(*a, f) && head1(*b, f),
        Rx::Cat(a, b) => head1(*a, f),
        Rx::Star(_) => false,
        _ => cls(r, f),
    }
}
#[verifier::opaque]
pub open spec fn one(r: Rx) -> bool
    decreases r
{
    match r {
        Rx::Nil => false,
        Rx::L(t) => t.len() == 1,
        Rx::Alt(a, b) => one(*a) && one(*b),
        Rx::Cat(_, _) => false,
        Rx::Star(_) => false,
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn head2(r: Rx, f: spec_fn(char) -> bool, h: spec_fn(char) -> bool) -> bool
    decreases r
{
    match r {
        Rx::L(t) => t.len() > 1 && f(t[0]) && h(t[1]),
        Rx::Alt(a, b) => head2(*a, f, h) && head2(*b, f, h),
        Rx::Cat(a, b) => one(*a) && head1(*a, f) && head1(*b, h),
        _ => false,
    }
}
proof fn lemma_head1(r: Rx, f: spec_fn(char) -> bool, s: Seq<char>)
    requires head1(r, f), lang(r, s)
    ensures s.len() > 0 && f(s[0])
    decreases r
{ reveal(head1);
    match r {
        Rx::Alt(a, b) => { if lang(*a, s) { lemma_head1(*a, f, s); } else { lemma_head1(*b, f, s); } }
        Rx::Cat(a, b) => {
            let k = choose|k: int| 0 <= k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(*b, s.skip(k));
            lemma_head1(*a, f, s.take(k));
        }
        _ => {}
    }
}
proof fn lemma_one(r: Rx, s: Seq<char>)
    requires one(r), lang(r, s)
    ensures s.len() == 1
    decreases r
{ reveal(one); match r { Rx::Alt(a, b) => { if lang(*a, s) { lemma_one(*a, s); } else { lemma_one(*b, s); } } _ => {} } }
pub proof fn lemma_head2(r: Rx, f: spec_fn(char) -> bool, h: spec_fn(char) -> bool, s: Seq<char>)
    requires head2(r, f, h), lang(r, s)
    ensures s.len() > 1 && f(s[0]) && h(s[1])
    decreases r
{ reveal(head2);
    match r {
        Rx::Alt(a, b) => { if lang(*a, s) { lemma_head2(*a, f, h, s); } else { lemma_head2(*b, f, h, s); } }
        Rx::Cat(a, b) => {
            let k = choose|k: int| 0 <= k <= s.len() && lang(*a, #[trigger] s.take(k)) && lang(*b, s.skip(k));
            lemma_head1(*a, f, s.take(k));
            lemma_one(*a, s.take(k));
            lemma_head1(*b, h, s.skip(k));
        }
        _ => {}
    }
}
pub open spec fn f_quote() -> spec_fn(char) -> bool { |c: char| c == '"' || c == '\'' }
#[verifier::opaque]
pub open spec fn gap_pat(p: Pat) -> bool { p.items.len() == 1 && head2(p.items[0], f_quote(), f_ws()) }
pub broadcast proof fn lemma_gap_hit(p: Pat, m: Seq<char>)
    requires #[trigger] matches(p, m), gap_pat(p)
    ensures m.len() > 1, m[0] == '"' || m[0] == '\'', ws(m[1]), is_off(m, 1), at(m, 1) == 1, m.take(1) == seq![m[0]]
{
    assert(m.len() > 0 ==> m.take(1) =~= seq![m[0]]);
    reveal(gap_pat);
    let g = choose|g: Seq<Seq<char>>| hit(p, m, g);
    assert(lang(p.items[0], g[0]));
    reveal_with_fuel(cat, 3);
    assert(m =~= g[0]);
    lemma_head2(p.items[0], f_quote(), f_ws(), m);
    assert(f_quote()(m[0]) && f_ws()(m[1]));
    lemma_off0(m); lemma_off_next(m, 0); lemma_wid(m[0]); lemma_at(m, 1);
}
/// what is left of it when the white space in front is taken away
pub open spec fn trimmed_start(s: Seq<char>, r: Seq<char>) -> bool {
    exists|k: int| 0 <= k <= s.len() && is_ws(#[trigger] s.take(k)) && r == s.skip(k) && (r.len() == 0 || !ws(r[0]))
}
/// c, white space, rest: one blank is as good
pub broadcast proof fn lemma_gap(p: Pat, m: Seq<char>, x: Seq<char>)
    requires #[trigger] matches(p, m), gap_pat(p), #[trigger] trimmed_start(m.skip(1), x)
    ensures cong(true, m, (seq![m[0]] + " "@) + x)
{
    lemma_gap_hit(p, m);
    reveal_strlit(" ");
    assert(" "@ =~= seq![' ']);
    let k = choose|k: int| 0 <= k <= m.skip(1).len() && is_ws(#[trigger] m.skip(1).take(k)) && x == m.skip(1).skip(k) && (x.len() == 0 || !ws(x[0]));
    let (c, w) = (seq![m[0]], m.skip(1).take(k));
    assert(k > 0) by { if k == 0 { assert(x[0] == m[1]); } }
    assert(m =~= c + w + x);
    lemma_cong_run(true, w);
    lemma_cong_cat(true, c, c, w, seq![' ']);
    lemma_cong_cat(true, c + w, c + seq![' '], x, x);
}
pub broadcast proof fn lemma_add_empty(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s
{ assert(Seq::<char>::empty() + s =~= s); }
// ---- the same, one constructor at a time
pub broadcast proof fn form_over_alt(a: Rx, b: Rx, f: spec_fn(char) -> bool)
    ensures #[trigger] over(ralt(a, b), f) == (over(a, f) && over(b, f))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_cat(a: Rx, b: Rx, f: spec_fn(char) -> bool)
    ensures #[trigger] over(rcat(a, b), f) == (over(a, f) && over(b, f))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_star(a: Rx, f: spec_fn(char) -> bool)
    ensures #[trigger] over(rstar(a), f) == over(a, f)
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_l(t: Seq<char>, f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::L(t), f) == all(t, f)
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_r(x: char, y: char, f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::R(x, y), f) == (forall|c: char| x <= c <= y ==> #[trigger] f(c))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_ws(f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::Ws, f) == (forall|c: char| ws(c) ==> #[trigger] f(c))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_word(f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::Word, f) == (forall|c: char| word(c) ==> #[trigger] f(c))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_digit(f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::Digit, f) == (forall|c: char| digit(c) ==> #[trigger] f(c))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_over_notnl(f: spec_fn(char) -> bool)
    ensures #[trigger] over(Rx::NotNl, f) == (forall|c: char| c != '\n' ==> #[trigger] f(c))
{ reveal_with_fuel(over, 2); }
pub broadcast proof fn form_head1_r(x: char, y: char, f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::R(x, y), f) == (forall|c: char| x <= c <= y ==> #[trigger] f(c))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_ws(f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::Ws, f) == (forall|c: char| ws(c) ==> #[trigger] f(c))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_word(f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::Word, f) == (forall|c: char| word(c) ==> #[trigger] f(c))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_digit(f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::Digit, f) == (forall|c: char| digit(c) ==> #[trigger] f(c))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_notnl(f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::NotNl, f) == (forall|c: char| c != '\n' ==> #[trigger] f(c))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_least_alt(a: Rx, b: Rx)
    ensures #[trigger] least(ralt(a, b)) == if least(a) < least(b) { least(a) } else { least(b) }
{ reveal_with_fuel(least, 2); }
pub broadcast proof fn form_least_cat(a: Rx, b: Rx)
    ensures #[trigger] least(rcat(a, b)) == least(a) + least(b)
{ reveal_with_fuel(least, 2); }
pub broadcast proof fn form_least_star(a: Rx)
    ensures #[trigger] least(rstar(a)) == 0
{ reveal_with_fuel(least, 2); }
pub broadcast proof fn form_least_l(t: Seq<char>)
    ensures #[trigger] least(Rx::L(t)) == t.len()
{ reveal_with_fuel(least, 2); }
pub broadcast proof fn form_least_r(x: char, y: char)
    ensures #[trigger] least(Rx::R(x, y)) == 1
{ reveal_with_fuel(least, 2); }
pub broadcast proof fn form_head1_alt(a: Rx, b: Rx, f: spec_fn(char) -> bool)
    ensures #[trigger] head1(ralt(a, b), f) == (head1(a, f) && head1(b, f))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_cat(a: Rx, b: Rx, f: spec_fn(char) -> bool)
    ensures #[trigger] head1(rcat(a, b), f) == head1(a, f)
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head1_l(t: Seq<char>, f: spec_fn(char) -> bool)
    ensures #[trigger] head1(Rx::L(t), f) == (t.len() > 0 && f(t[0]))
{ reveal_with_fuel(head1, 2); }
pub broadcast proof fn form_head2_alt(a: Rx, b: Rx, f: spec_fn(char) -> bool, h: spec_fn(char) -> bool)
    ensures #[trigger] head2(ralt(a, b), f, h) == (head2(a, f, h) && head2(b, f, h))
{ reveal_with_fuel(head2, 2); }
pub broadcast proof fn form_head2_cat(a: Rx, b: Rx, f: spec_fn(char) -> bool, h: spec_fn(char) -> bool)
    ensures #[trigger] head2(rcat(a, b), f, h) == (one(a) && head1(a, f) && head1(b, h))
{ reveal_with_fuel(head2, 2); }
pub broadcast proof fn form_head2_l(t: Seq<char>, f: spec_fn(char) -> bool, h: spec_fn(char) -> bool)
    ensures #[trigger] head2(Rx::L(t), f, h) == (t.len() > 1 && f(t[0]) && h(t[1]))
{ reveal_with_fuel(head2, 2); }
pub broadcast proof fn form_one_alt(a: Rx, b: Rx)
    ensures #[trigger] one(ralt(a, b)) == (one(a) && one(b))
{ reveal_with_fuel(one, 2); }
pub broadcast proof fn form_one_l(t: Seq<char>)
    ensures #[trigger] one(Rx::L(t)) == (t.len() == 1)
{ reveal_with_fuel(one, 2); }
pub broadcast proof fn form_least_leaf(r: Rx)
    requires r is Ws || r is Word || r is Digit || r is NotNl
    ensures #[trigger] least(r) == 1
{ reveal(least); }
pub broadcast proof fn form_one_leaf(r: Rx)
    requires r is Ws || r is Word || r is Digit || r is NotNl || r is R
    ensures #[trigger] one(r)
{ reveal(one); }
pub broadcast proof fn form_lang_alt(a: Rx, b: Rx, s: Seq<char>)
    ensures #[trigger] lang(ralt(a, b), s) == (lang(a, s) || lang(b, s))
{}
/// every character
#[verifier::opaque]
pub open spec fn full(r: Rx) -> bool { forall|c: char| lang(r, #[trigger] seq![c]) }
pub broadcast proof fn form_full1(r: Rx, t: Seq<char>)
    requires r is NotNl, t == seq!['\n']
    ensures #[trigger] full(ralt(r, Rx::L(t)))
{
    reveal(full);
    assert forall|c: char| lang(ralt(r, Rx::L(t)), #[trigger] seq![c]) by {
        assert(seq![c].len() == 1 && seq![c][0] == c);
        if c == '\n' { assert(lang(Rx::L(t), seq![c])); } else { assert(lang(r, seq![c])); }
    }
}
pub broadcast proof fn form_full2(r: Rx, t: Seq<char>)
    requires r is NotNl, t == seq!['\n']
    ensures #[trigger] full(ralt(Rx::L(t), r))
{
    reveal(full);
    form_full1(r, t);
    assert forall|c: char| lang(ralt(Rx::L(t), r), #[trigger] seq![c]) by { assert(lang(ralt(r, Rx::L(t)), seq![c])); }
}
pub broadcast group group_form {
    form_full1, form_full2,
    form_over_alt, form_over_cat, form_over_star, form_over_l, form_over_r, form_over_ws, form_over_word, form_over_digit, form_over_notnl, form_head1_r, form_head1_ws, form_head1_word, form_head1_digit, form_head1_notnl, form_least_alt, form_least_cat, form_least_star, form_least_l, form_least_r, form_head1_alt, form_head1_cat, form_head1_l, form_head2_alt, form_head2_cat, form_head2_l, form_one_alt, form_one_l, form_least_leaf, form_one_leaf
}
pub broadcast group group_h { lemma_edits0, lemma_edits_rest, lemma_found, lemma_stripped0, lemma_drops0, lemma_optional, lemma_trims }
pub broadcast group group_tags { lemma_lit_cong, lemma_nonempty, lemma_repl_cong_gt, lemma_gap_hit, lemma_gap, lemma_add_empty, lemma_quote_groups }

// ================================================================ H01
/// white space between the words: as it was (but for the outer) where the text has a pre or textarea element
pub open spec fn white(s: Seq<char>, r: Seq<char>) -> bool {
    trims(s, r) || cong(false, s, r) && !occurs_ci(s, "<pre"@) && !occurs_ci(s, "<textarea"@)
}
/// comments gone, type attributes of style and script gone
pub closed spec fn step2(s: Seq<char>, r: Seq<char>) -> bool { edits(style_rel(), strip(s), r) }
/// optional tags gone
pub closed spec fn step3(s: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] step2(s, a) && drops(a, r) }
/// white space between the words shortened
pub closed spec fn step4(s: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] step3(s, a) && white(a, r) }
/// start tags shortened
pub closed spec fn step5(s: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] step4(s, a) && edits(tag_rel(), a, r) }
/// outer white space gone
pub closed spec fn step6(s: Seq<char>, r: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] step5(s, a) && trims(a, r) }
pub closed spec fn html_ok(s: Seq<char>, r: Seq<char>) -> bool { step6(s, r) }
/// the last step of the code
pub closed spec fn unquoted(s: Seq<char>, r: Seq<char>) -> bool { exists|d: Seq<char>| #[trigger] edits(tag_rel(), s, d) && trims(d, r) }
pub broadcast proof fn lemma_step2(s: Seq<char>, r: Seq<char>)
    requires #[trigger] edits(style_rel(), strip(s), r) ensures step2(s, r) {}
pub broadcast proof fn lemma_step3(s: Seq<char>, a: Seq<char>, r: Seq<char>)
    requires #[trigger] step2(s, a), #[trigger] drops(a, r) ensures step3(s, r) {}
pub broadcast proof fn lemma_step4(s: Seq<char>, a: Seq<char>, r: Seq<char>)
    requires #[trigger] step3(s, a), #[trigger] white(a, r) ensures step4(s, r) {}
pub broadcast proof fn lemma_step6(s: Seq<char>, a: Seq<char>, r: Seq<char>)
    requires #[trigger] step4(s, a), #[trigger] unquoted(a, r) ensures step6(s, r)
{
    let d = choose|d: Seq<char>| #[trigger] edits(tag_rel(), a, d) && trims(d, r);
    assert(step5(s, d));
}
pub broadcast proof fn lemma_unquoted(a: Seq<char>, d: Seq<char>, r: Seq<char>)
    requires #[trigger] edits(tag_rel(), a, d), #[trigger] trims(d, r) ensures unquoted(a, r) {}
/// trimmed twice
pub broadcast proof fn lemma_step6_trim(s: Seq<char>, e: Seq<char>, r: Seq<char>)
    requires #[trigger] step6(s, e), #[trigger] trims(e, r) ensures html_ok(s, r)
{
    let d = choose|d: Seq<char>| #[trigger] step5(s, d) && trims(d, e);
    lemma_trims_twice(d, e, r);
}
pub broadcast proof fn lemma_step6_ok(s: Seq<char>, e: Seq<char>)
    requires #[trigger] step6(s, e) ensures html_ok(s, e) {}
proof fn lemma_trims_twice(d: Seq<char>, e: Seq<char>, r: Seq<char>)
    requires trims(d, e), trims(e, r) ensures trims(d, r)
{
    let (a, b) = choose|a: int, b: int| #[trigger] trims_at(d, e, a, b);
    let (x, y) = choose|x: int, y: int| #[trigger] trims_at(e, r, x, y);
    if e.len() > 0 {
        if x > 0 { assert(e.take(x)[0] == e[0]); assert(ws(e.take(x)[0])); }
        if y < e.len() { assert(e.skip(y)[e.len() - 1 - y] == e.last()); assert(ws(e.skip(y)[e.len() - 1 - y])); }
    }
    assert(r =~= e);
}
pub broadcast group group_html { lemma_step2, lemma_step3, lemma_step4, lemma_step6, lemma_step6_trim, lemma_step6_ok }
} // mod hspec
