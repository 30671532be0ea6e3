//@ include css_spec.vs
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/css/token.rs ReservedChar
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/css/token.rs Operator
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/css/token.rs SelectorOperator

pub mod tstd {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;

// ================================================================ trusted: std
pub uninterp spec fn alphabetic(c: char) -> bool;
pub broadcast axiom fn axiom_alphabetic(c: char)
    ensures (c as u32) < 0x80 ==> #[trigger] alphabetic(c) == ('a' <= c <= 'z' || 'A' <= c <= 'Z');
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == alphabetic(c);
/// assert!, which must not fail
pub fn vx_assert(b: bool) requires b {}
/// s.strip_prefix(c)
#[verifier::external_body]
pub fn vx_strip_prefix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures r is Some == (s@.len() > 0 && s@[0] == c), r is Some ==> r->0@ == s@.drop_first()
{ s.strip_prefix(c) }
/// s.chars().next()
#[verifier::external_body]
pub fn vx_first(s: &str) -> (r: Option<char>)
    ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) })
{ s.chars().next() }
/// l.iter().any(|f| f.eq_ignore_ascii_case(s))
#[verifier::external_body]
pub fn vx_any_eq_ignore_case(l: &[&str], s: &str) -> (r: bool)
    ensures r == any_eq_ignore_case(l@, s@)
{ l.iter().any(|f| f.eq_ignore_ascii_case(s)) }

/// a list of names that is the list of the functions
pub open spec fn math_list(l: &[&str]) -> bool {
    l@.len() == math_names().len() && forall|k: int| 0 <= k < l@.len() ==> (#[trigger] l@[k])@ == math_names()[k]
}
#[verifier::opaque]
pub open spec fn any_eq_ignore_case(l: Seq<&str>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < l.len() && lower_seq(#[trigger] l[k]@) == lower_seq(n) }
pub broadcast proof fn lemma_math_name(l: &[&str], n: Seq<char>)
    requires math_list(l)
    ensures #[trigger] any_eq_ignore_case(l@, n) == math_name(n)
{
    reveal(math_name); reveal(any_eq_ignore_case);
    if any_eq_ignore_case(l@, n) {
        let k = choose|k: int| 0 <= k < l@.len() && lower_seq(#[trigger] l@[k]@) == lower_seq(n);
        assert(lower_seq(math_names()[k]) == lower_seq(n));
    }
    if math_name(n) {
        let k = choose|k: int| 0 <= k < math_names().len() && lower_seq(#[trigger] math_names()[k]) == lower_seq(n);
        assert(lower_seq(l@[k]@) == lower_seq(n));
    }
}

pub broadcast proof fn lemma_not_math(c: char, n: Seq<char>)
    requires c == '.' || c == '#'
    ensures !math_name(#[trigger] cons(c, n))
{
    reveal(math_name);
    let x = cons(c, n);
    if math_name(x) {
        let k = choose|k: int| 0 <= k < math_names().len() && lower_seq(#[trigger] math_names()[k]) == lower_seq(x);
        reveal_strlit("calc"); reveal_strlit("calc-size"); reveal_strlit("-webkit-calc"); reveal_strlit("-moz-calc"); reveal_strlit("min"); reveal_strlit("max"); reveal_strlit("clamp"); reveal_strlit("round"); reveal_strlit("mod"); reveal_strlit("rem"); reveal_strlit("sin"); reveal_strlit("cos"); reveal_strlit("tan"); reveal_strlit("asin"); reveal_strlit("acos"); reveal_strlit("atan"); reveal_strlit("atan2"); reveal_strlit("pow"); reveal_strlit("sqrt"); reveal_strlit("hypot"); reveal_strlit("log"); reveal_strlit("exp"); reveal_strlit("abs"); reveal_strlit("sign");
        assert(lower_seq(x)[0] == lower(x[0]));
        assert(lower_seq(math_names()[k])[0] == lower(math_names()[k][0]));
    }
}
} // mod tstd

pub mod tok {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::{ReservedChar, Operator, SelectorOperator};
broadcast use {group_base, axiom_alphabetic, lemma_math_name, lemma_not_math};

// ================================================================ code: types
//@ rw const MATH_FUNCTIONS : & [ & str ] = $$x ; =>> exec const MATH_FUNCTIONS: &'static [&'static str] ensures math_list(MATH_FUNCTIONS) { let x: &'static [&'static str] = $$x; x }
//@ type src/css/token.rs MATH_FUNCTIONS
//@ type src/css/token.rs SelectorElement
//@ type src/css/token.rs Token

/// derived equality of SelectorElement and Token
pub open spec fn seq_(a: SelectorElement, b: SelectorElement) -> bool {
    match (a, b) {
        (SelectorElement::PseudoClass(x), SelectorElement::PseudoClass(y)) => x@ == y@,
        (SelectorElement::Class(x), SelectorElement::Class(y)) => x@ == y@,
        (SelectorElement::Id(x), SelectorElement::Id(y)) => x@ == y@,
        (SelectorElement::Tag(x), SelectorElement::Tag(y)) => x@ == y@,
        (SelectorElement::Media(x), SelectorElement::Media(y)) => x@ == y@,
        _ => false,
    }
}
pub open spec fn teq(a: Token, b: Token) -> bool {
    match (a, b) {
        (Token::Comment(x), Token::Comment(y)) => x@ == y@,
        (Token::License(x), Token::License(y)) => x@ == y@,
        (Token::Char(x), Token::Char(y)) => x == y,
        (Token::Other(x), Token::Other(y)) => x@ == y@,
        (Token::SelectorElement(x), Token::SelectorElement(y)) => seq_(x, y),
        (Token::String(x), Token::String(y)) => x@ == y@,
        (Token::SelectorOperator(x), Token::SelectorOperator(y)) => x == y,
        (Token::Operator(x), Token::Operator(y)) => x == y,
        _ => false,
    }
}
impl<'a> PartialEqSpecImpl for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { teq(*self, *o) }
}
impl<'a> PartialEq for Token<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}

// ================================================================ what the code's tokens stand for
pub open spec fn rch(c: ReservedChar) -> char {
    match c {
        ReservedChar::Comma => ',', ReservedChar::OpenParenthese => '(', ReservedChar::CloseParenthese => ')',
        ReservedChar::OpenCurlyBrace => '{', ReservedChar::CloseCurlyBrace => '}', ReservedChar::OpenBracket => '[',
        ReservedChar::CloseBracket => ']', ReservedChar::Colon => ':', ReservedChar::SemiColon => ';', ReservedChar::Slash => '/',
        ReservedChar::Star => '*', ReservedChar::Plus => '+', ReservedChar::EqualSign => '=', ReservedChar::Space => ' ',
        ReservedChar::Tab => '\t', ReservedChar::Backline => '\n', ReservedChar::SuperiorThan => '>', ReservedChar::Quote => '\'',
        ReservedChar::DoubleQuote => '"', ReservedChar::Pipe => '|', ReservedChar::Tilde => '~', ReservedChar::Dollar => '$',
        ReservedChar::Circumflex => '^', ReservedChar::Backslash => '\\',
    }
}
pub open spec fn opch(o: Operator) -> char {
    match o { Operator::Plus => '+', Operator::Multiply => '*', Operator::Minus => '-', Operator::Modulo => '%', Operator::Divide => '/' }
}
pub open spec fn soch(o: SelectorOperator) -> char {
    match o {
        SelectorOperator::OneAttributeEquals => '~', SelectorOperator::EqualsOrStartsWithFollowedByDash => '|',
        SelectorOperator::EndsWith => '$', SelectorOperator::FirstStartsWith => '^', SelectorOperator::Contains => '*',
    }
}
pub open spec fn useless(c: ReservedChar) -> bool { c == ReservedChar::Space || c == ReservedChar::Tab || c == ReservedChar::Backline }
/// a token that only separates
pub open spec fn sep(t: Token) -> bool { t is Comment || (t is Char && useless(t->Char_0)) }
pub open spec fn media(t: Token) -> bool { t is SelectorElement && t->SelectorElement_0 is Media }
/// what a token that does not only separate stands for
pub open spec fn tt(t: Token) -> T {
    match t {
        Token::License(s) => T::Lic(s@),
        Token::Char(c) => T::Res(rch(c)),
        Token::SelectorElement(SelectorElement::PseudoClass(s)) => T::Pseudo(s@),
        Token::SelectorElement(SelectorElement::Class(s)) => T::Word(cons('.', s@)),
        Token::SelectorElement(SelectorElement::Id(s)) => T::Word(cons('#', s@)),
        Token::SelectorElement(SelectorElement::Tag(s)) => T::Word(s@),
        Token::SelectorElement(SelectorElement::Media(s)) => T::At(cons('@', s@)),
        Token::String(s) => T::Str(s@),
        Token::SelectorOperator(o) => T::SelOp(soch(o)),
        Token::Operator(o) => T::Op(opch(o)),
        Token::Other(s) => T::Word(s@),
        Token::Comment(s) => T::Word(s@),
    }
}
pub open spec fn gstep(a: Seq<E>, t: Token) -> Seq<E> { if sep(t) { mark(a) } else { a.push(one(tt(t))) } }
/// the tokens that a list of the code's tokens stands for
#[verifier::opaque]
pub open spec fn g(v: Seq<Token>) -> Seq<E> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { gstep(g(v.drop_last()), v.last()) }
}
/// g of the vector's tokens
pub broadcast proof fn lemma_g_empty(v: Seq<Token>)
    requires v.len() == 0
    ensures #[trigger] g(v) == Seq::<E>::empty()
{ reveal(g); }
pub broadcast proof fn lemma_g_push(v: Seq<Token>, t: Token)
    ensures #[trigger] g(v.push(t)) == gstep(g(v), t)
{ reveal(g); assert(v.push(t).drop_last() =~= v); }
pub broadcast proof fn lemma_g_pop(v: Seq<Token>)
    requires v.len() > 0
    ensures g(v) == gstep(#[trigger] g(v.drop_last()), v.last())
{ reveal(g); }
/// what the last token tells about the last token it stands for
pub broadcast proof fn lemma_g_last(v: Seq<Token>)
    ensures v.len() == 0 ==> g(v).len() == 0,
        v.len() > 0 ==> g(v) == gstep(g(v.drop_last()), v.last()),
        v.len() > 0 && !sep(v.last()) ==> (#[trigger] g(v)).len() > 0 && g(v).last() == one(tt(v.last())),
        v.len() > 0 && sep(v.last()) ==> g(v).len() == 0 || g(v).last().gap,
{ reveal(g); }
pub broadcast group group_g { lemma_g_empty, lemma_g_push, lemma_g_last }

// ================================================================ code: small functions
//@ rw value . strip_prefix ( $c ) =>> vx_strip_prefix(value, $c)
//@ rw value . chars ( ) . next ( ) =>> vx_first(value)
//@ rw MATH_FUNCTIONS . iter ( ) . any ( $$x ) =>> vx_any_eq_ignore_case(MATH_FUNCTIONS, name)
//@ rw Self :: Error =>> &'static str

//@ fn src/css/token.rs impl=ReservedChar trait=TryFrom<char> try_from
//@ spec
    ensures r is Ok == reserved(value), r is Ok ==> (rch(r->Ok_0) == value || (value == '\r' && r->Ok_0 == ReservedChar::Backline)),
//@ end
//@ fn src/css/token.rs impl=ReservedChar is_useless
//@ spec
    ensures r == useless(*self),
//@ end
//@ fn src/css/token.rs impl=ReservedChar is_operator
//@ spec
    ensures r == (*self == ReservedChar::Slash || *self == ReservedChar::Star || *self == ReservedChar::Plus),
//@ end
//@ fn src/css/token.rs impl=Operator trait=TryFrom<ReservedChar> try_from
//@ spec
    ensures r is Ok == (value == ReservedChar::Slash || value == ReservedChar::Star || value == ReservedChar::Plus),
        r is Ok ==> opch(r->Ok_0) == rch(value),
//@ end
//@ fn src/css/token.rs impl=SelectorElement trait=TryFrom try_from
//@ spec
    ensures
        value@.len() > 0 && value@[0] == ':' ==> (r is Ok == (value@.len() > 1)) && (r is Ok ==> tt(Token::SelectorElement(r->Ok_0)) == T::Pseudo(value@.drop_first())),
        value@.len() > 0 && value@[0] == '@' ==> (r is Ok == (value@.len() > 1)) && (r is Ok ==> tt(Token::SelectorElement(r->Ok_0)) == T::At(value@)),
        value@.len() == 0 || (value@[0] != ':' && value@[0] != '@') ==> (r is Ok ==> tt(Token::SelectorElement(r->Ok_0)) == T::Word(value@)),
        value@.len() > 0 && blank(value@[0]) ==> r is Err,
//@ end
//@ fn src/css/token.rs impl=Token is_comment
//@ spec
    ensures r == (*self is Comment),
//@ end
//@ fn src/css/token.rs impl=Token is_char
//@ spec
    ensures r == (*self is Char),
//@ end
//@ fn src/css/token.rs impl=Token get_char
//@ spec
    ensures *self is Char ==> r == Some(self->Char_0), !(*self is Char) ==> r is None,
//@ end
//@ fn src/css/token.rs impl=Token is_useless
//@ spec
    ensures r == (*self is Char && useless(self->Char_0)),
//@ end
//@ fn src/css/token.rs impl=Token is_a_media
//@ spec
    ensures r == media(*self),
//@ end
//@ fn src/css/token.rs impl=Token opt is_a_selector_element
//@ spec
    ensures r == (*self is SelectorElement),
//@ end
//@ fn src/css/token.rs impl=Token is_a_license
//@ spec
    ensures r == (*self is License),
//@ end
//@ fn src/css/token.rs impl=Token opt ends_simple_selector
//@ spec
    ensures r == ((*self is SelectorElement && !media(*self)) || *self is Other || *self == Token::Char(ReservedChar::CloseParenthese) || *self == Token::Char(ReservedChar::Star)),
//@ end
//@ fn src/css/token.rs impl=Token opt is_math_function
//@ spec
    ensures r == (!sep(*self) && math_fn(tt(*self))),
//@ end
//@ fn src/css/token.rs impl=Token is_operator
//@ spec
    ensures r == (*self is Operator || (*self is Char && (self->Char_0 == ReservedChar::Slash || self->Char_0 == ReservedChar::Star || self->Char_0 == ReservedChar::Plus))),
//@ end
} // mod tok

pub mod tokz {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::{ReservedChar, Operator, SelectorOperator};
broadcast use {group_base, group_off, group_g};

//@ rw Peekable < CharIndices < '_ > > =>> CharIndices
//@ rw $s . char_indices ( ) . peekable ( ) =>> vx_char_indices($s)
//@ rw Some ( & ( _ , $c ) ) =>> Some((_, $c))
//@ rw $i . peek ( ) . map ( | ( _ , $a ) | $b ) != Some ( & $c ) =>> ! vx_peeked($i.peek(), $c)
//@ rw $i . peek ( ) . map ( | ( _ , $a ) | $b ) == Some ( & $c ) =>> vx_peeked($i.peek(), $c)
//@ rw & $s [ $$a .. $$b ] =>> vx_slice($s, $$a, $$b)
//@ rw $c . len_utf8 ( ) =>> vx_wid($c)
//@ rw source . len ( ) =>> vx_len(source)
//@ rw for ( $a , $b ) in iterator =>> while let Some(($a, $b)) = iterator.next()

/// the constructors used as values, defunctionalised
pub enum VxBuild { License, Comment }
impl VxBuild {
    pub fn call<'a>(self, s: &'a str) -> (r: Token<'a>)
        ensures r == (match self { VxBuild::License => Token::License(s), VxBuild::Comment => Token::Comment(s) })
    { match self { VxBuild::License => Token::License(s), VxBuild::Comment => Token::Comment(s) } }
}

//@ fn src/css/token.rs get_comment
//@ rw Token :: License =>> VxBuild::License
//@ rw Token :: Comment =>> VxBuild::Comment
//@ rw builder ( $$x ) =>> builder.call($$x)
//@ spec
    requires old(iterator).src() == source@, 2 <= old(iterator).idx() <= source@.len(), *old(start_pos) == off(source@, old(iterator).idx() - 1),
        source@[old(iterator).idx() - 2] == '/', source@[old(iterator).idx() - 1] == '*', source@.len() < 0x7fff_ffff,
    ensures final(iterator).src() == source@,
        ({ let (s, i) = (source@, old(iterator).idx() - 2);
           match com_end(s, i + 3) {
               None => r is None,
               Some(k) => i + 3 <= k < s.len() && final(iterator).idx() == k + 1 && *final(start_pos) == off(s, k) && off(s, k + 1) == off(s, k) + 1
                   && (license(s, i) ==> r is Some && r->0 is License && r->0->License_0@ == s.subrange(i + 3, k - 1))
                   && (!license(s, i) ==> r is Some && r->0 is Comment),
           } }),
//@ start
    let ghost i = iterator.idx() - 2;
    proof { axiom_len(source); assert(off(source@, i + 2) <= off(source@, source@.len() as int)); lemma_off_next(source@, i + 1); }
//@ loop 1
    invariant i == old(iterator).idx() - 2, iterator.src() == source@, 0 <= i, i + 2 <= iterator.idx() <= source@.len(), *start_pos == off(source@, i + 1),
        iterator.idx() < i + 3 ==> iterator.idx() == source@.len(),
        com_end(source@, i + 3) == com_end(source@, if iterator.idx() < i + 3 { i + 3 } else { iterator.idx() }),
        builder is License == license(source@, i),
        off(source@, i + 2) == off(source@, i + 1) + 1,
        iterator.idx() >= i + 3 ==> off(source@, iterator.idx()) == off(source@, iterator.idx() - 1) + wid(source@[iterator.idx() - 1]),
        license(source@, i) ==> content_start_pos == off(source@, i + 3) && iterator.idx() >= i + 3,
        !license(source@, i) ==> content_start_pos == off(source@, i + 2),
        iterator.idx() >= i + 3 ==> (prev == ReservedChar::Star) == (source@[iterator.idx() - 1] == '*' && !(license(source@, i) && iterator.idx() == i + 3)),
    ensures com_end(source@, i + 3) is None,
    decreases source@.len() - iterator.idx()
//@ end

//@ fn src/css/token.rs get_string
//@ spec
    requires old(iterator).src() == source@, 1 <= old(iterator).idx() <= source@.len(), *old(start_pos) == off(source@, old(iterator).idx() - 1),
        start == ReservedChar::Quote || start == ReservedChar::DoubleQuote,
    ensures final(iterator).src() == source@,
        r is Some == str_end(source@, old(iterator).idx(), rch(start)) is Some,
        r is Some ==> ({ let (s, i, k) = (source@, old(iterator).idx() - 1, str_end(source@, old(iterator).idx(), rch(start))->0);
            &&& i + 1 <= k < s.len()
            &&& final(iterator).idx() == k + 1
            &&& *final(start_pos) == off(s, k)
            &&& off(s, k + 1) == off(s, k) + 1
            &&& r->0 is String
            &&& r->0->String_0@ == s.subrange(i, k + 1) }),
//@ start
    let ghost i = iterator.idx() - 1;
//@ loop 1
    invariant i == old(iterator).idx() - 1, iterator.src() == source@, 0 <= i, i + 1 <= iterator.idx() <= source@.len(), *start_pos == off(source@, i),
        start == ReservedChar::Quote || start == ReservedChar::DoubleQuote,
        str_end(source@, i + 1, rch(start)) == str_end(source@, iterator.idx(), rch(start)),
    ensures str_end(source@, i + 1, rch(start)) is None,
    decreases source@.len() - iterator.idx()
//@ end

} // mod tokz

pub mod tokf {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::{ReservedChar, Operator, SelectorOperator};
broadcast use {group_base, lemma_at};

/// a selector's name may follow the colon that v ends in
pub open spec fn colon_ok(s: Seq<char>, v: Seq<Token>, st: int) -> bool {
    v.len() > 0 && v.last() == Token::Char(ReservedChar::Colon) ==> 0 < st <= s.len() && (s[st - 1] == ':' || blank(s[st - 1]))
}
pub proof fn lemma_ends_colon(v: Seq<Token>)
    ensures ends_in(g(v), T::Res(':')) == (v.len() > 0 && v.last() == Token::Char(ReservedChar::Colon)),
        v.len() > 0 && v.last() == Token::Char(ReservedChar::Colon) ==> g(v).drop_last() == g(v.drop_last()),
{
    lemma_g_last(v);
    if v.len() > 0 && v.last() == Token::Char(ReservedChar::Colon) {
        assert(g(v).drop_last() =~= g(v.drop_last()));
    }
}

//@ fn src/css/token.rs fill_other
//@ spec
    requires is_off(source@, start as int), is_off(source@, pos as int), start <= pos, colon_ok(source@, old(v)@, at(source@, start as int)),
        start < pos ==> !reserved(source@[at(source@, start as int)]),
    ensures g(final(v)@) == word(source@, at(source@, start as int), at(source@, pos as int), g(old(v)@), sel(is_in_block as int, is_in_media, is_in_attribute_selector)),
        final(v)@.len() <= old(v)@.len() + (at(source@, pos as int) - at(source@, start as int)),
        start < pos ==> final(v)@.len() > 0 && (final(v)@.last() is Other || final(v)@.last() is SelectorElement),
        start == pos ==> final(v)@ == old(v)@,
//@ start
    let ghost v0 = v@;
    let ghost a = at(source@, start as int);
    let ghost b = at(source@, pos as int);
    proof {
        lemma_at_mono(source@, start as int, pos as int);
        if a > 0 { lemma_off_next(source@, a - 1); lemma_wid(source@[a - 1]); }
        if start < pos { lemma_off0(source@); }
        lemma_ends_colon(v0);
        assert forall|t: Token| #[trigger] g(v0.push(t)) == gstep(g(v0), t) by { lemma_g_push(v0, t); }
        if v0.len() > 0 { assert forall|t: Token| #[trigger] g(v0.drop_last().push(t)) == gstep(g(v0.drop_last()), t) by { lemma_g_push(v0.drop_last(), t); } }
        if 0 < a && a <= b { assert(source@.subrange(a - 1, b).drop_first() =~= source@.subrange(a, b)); }
    }
//@ end

pub broadcast proof fn lemma_tail(v: Seq<Token>)
    ensures v.len() > 0 && media(v.last()) <==> (#[trigger] g(v)).len() > 0 && g(v).last().t is At && !g(v).last().gap,
        v.len() > 0 && sep(v.last()) ==> mark(g(v)) == g(v) && (g(v).len() == 0 || g(v).last().gap),
        v.len() > 0 && !sep(v.last()) ==> g(v).len() > 0 && g(v).last() == one(tt(v.last())),
        v.len() == 0 ==> g(v).len() == 0,
{
    lemma_g_last(v);
    if v.len() > 0 {
        if sep(v.last()) { if g(v).len() > 0 { assert(mark(g(v)) =~= g(v)); } }
    }
}
pub broadcast proof fn lemma_pop(v: Seq<Token>, n: int)
    requires n == v.len() - 1, n >= 0, !sep(v.last())
    ensures g(v).drop_last() == #[trigger] g(v.subrange(0, n))
{
    lemma_g_last(v);
    assert(g(v).drop_last() =~= g(v.drop_last()));
}
pub broadcast group group_tail { lemma_tail, lemma_pop, lemma_g_push }
} // mod tokf


pub mod lems {
use vstd::prelude::*;
use super::base::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::ReservedChar;

// ================================================================ the tokens of a prefix
/// q has the tokens of p first
pub open spec fn ext(p: Seq<E>, q: Seq<E>) -> bool {
    p.len() <= q.len() && (forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).t == q[j].t && (p[j].gap ==> q[j].gap) && (j < p.len() - 1 ==> p[j].gap == q[j].gap))
}
pub proof fn lemma_ext_take(v: Seq<Token>, i: int)
    requires 0 <= i <= v.len()
    ensures ext(g(v.take(i)), g(v))
    decreases v.len() - i
{
    if i < v.len() {
        lemma_ext_take(v, i + 1);
        lemma_step(v, i);
    } else { assert(v.take(i) =~= v); }
}
pub proof fn lemma_step(v: Seq<Token>, i: int)
    requires 0 <= i < v.len()
    ensures g(v.take(i + 1)) == gstep(g(v.take(i)), v[i]), ext(g(v.take(i)), g(v.take(i + 1)))
{
    lemma_g_push(v.take(i), v[i]);
    assert(v.take(i).push(v[i]) =~= v.take(i + 1));
}
/// the tokens of v from v[i] on
pub proof fn lemma_pos(v: Seq<Token>, i: int)
    requires 0 <= i <= v.len()
    ensures ({
        let (p, a) = (g(v.take(i)), g(v));
        let m = p.len() as int;
        &&& ext(p, a)
        &&& (i == v.len() ==> p == a)
        &&& (i < v.len() && !sep(v[i]) ==> m < a.len() && a[m].t == tt(v[i]) && (m > 0 ==> a[m - 1].gap == p[m - 1].gap)
             && (i + 1 == v.len() ==> a.len() == m + 1 && !a[m].gap)
             && (i + 1 < v.len() && sep(v[i + 1]) ==> a[m].gap)
             && (i + 1 < v.len() && !sep(v[i + 1]) ==> !a[m].gap && m + 1 < a.len() && a[m + 1].t == tt(v[i + 1])))
    })
{
    lemma_ext_take(v, i);
    if i == v.len() { assert(v.take(i) =~= v); }
    if i < v.len() && !sep(v[i]) {
        lemma_ext_take(v, i + 1);
        lemma_step(v, i);
        let m = g(v.take(i)).len() as int;
        assert(g(v.take(i + 1))[m].t == tt(v[i]));
        if m > 0 { assert(g(v.take(i + 1))[m - 1] == g(v.take(i))[m - 1]); }
        if i + 1 < v.len() {
            lemma_ext_take(v, i + 2);
            lemma_step(v, i + 1);
            assert(g(v.take(i + 2))[m].t == tt(v[i]));
            if !sep(v[i + 1]) { assert(g(v.take(i + 2))[m + 1].t == tt(v[i + 1])); }
        } else { assert(v.take(i + 1) =~= v); }
    }
}
/// a simple selector starts at v[k]
pub open spec fn starts(v: Seq<Token>, k: int) -> bool {
    0 <= k < v.len() && match v[k] {
        Token::SelectorElement(_) => true,
        Token::Other(_) => true,
        Token::Char(c) => c == ReservedChar::Star || c == ReservedChar::OpenBracket || c == ReservedChar::Backslash
            || (c == ReservedChar::Colon && k + 1 < v.len() && (v[k + 1] == Token::Char(ReservedChar::Colon) || tt(v[k + 1]) is Pseudo)),
        _ => false,
    }
}
/// the elements of v that b keeps
#[verifier::opaque]
pub open spec fn kept(v: Seq<Token>, b: Seq<bool>) -> Seq<Token> decreases v.len() {
    if v.len() == 0 || b.len() < v.len() { Seq::empty() }
    else if b[v.len() - 1] { kept(v.drop_last(), b).push(v.last()) } else { kept(v.drop_last(), b) }
}
pub open spec fn no_comment(v: Seq<Token>) -> bool { forall|k: int| 0 <= k < v.len() ==> !(#[trigger] v[k] is Comment) }
pub proof fn lemma_kept_all(v: Seq<Token>, b: Seq<bool>)
    requires v.len() <= b.len(), forall|k: int| 0 <= k < v.len() && b[k] ==> !(#[trigger] v[k] is Comment)
    ensures no_comment(kept(v, b))
    decreases v.len()
{
    reveal(kept);
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|k: int| 0 <= k < d.len() && b[k] implies !(#[trigger] d[k] is Comment) by { assert(d[k] == v[k]); }
        lemma_kept_all(d, b);
        assert(v.last() == v[v.len() - 1]);
    }
}
/// kept depends on the first elements only
pub proof fn lemma_kept_eq(v: Seq<Token>, w: Seq<Token>, b: Seq<bool>, c: Seq<bool>)
    requires v =~= w, v.len() <= b.len(), v.len() <= c.len(), forall|k: int| 0 <= k < v.len() ==> b[k] == c[k]
    ensures kept(v, b) == kept(w, c)
    decreases v.len()
{
    reveal(kept);
    if v.len() > 0 { lemma_kept_eq(v.drop_last(), w.drop_last(), b, c); }
}
/// one more element, which b keeps if r
pub proof fn lemma_kept_step(v: Seq<Token>, w: Seq<Token>, b: Seq<bool>, r: bool)
    requires b.len() < w.len(), v.len() == w.len(), forall|k: int| 0 <= k < b.len() ==> v[k] == w[k]
    ensures kept(w.take(b.len() as int + 1), b.push(r)) == (if r { kept(v.take(b.len() as int), b).push(w[b.len() as int]) } else { kept(v.take(b.len() as int), b) })
{
    reveal(kept);
    let n = b.len() as int;
    assert(w.take(n + 1).drop_last() =~= v.take(n));
    lemma_kept_eq(w.take(n + 1).drop_last(), v.take(n), b.push(r), b);
}
/// what has been retained of the first i elements, and why the rest could be left out
pub open spec fn half(v: Seq<Token>, i: int, k: Seq<E>) -> bool {
    let (a, p) = (g(v), g(v.take(i)));
    let m = p.len() as int;
    k.len() == m
    && (forall|j: int| 0 <= j < m ==> (#[trigger] k[j]).t == a[j].t && (k[j].gap ==> p[j].gap))
    && (forall|j: int| 0 <= j < m - 1 && a[j].gap && #[trigger] req(a, j) ==> k[j].gap)
    && (m > 0 && p[m - 1].gap && !k[m - 1].gap && (i >= v.len() || !sep(v[i])) ==> !req(a, m - 1))
}
pub proof fn lemma_half_end(v: Seq<Token>, k: Seq<E>)
    requires half(v, v.len() as int, k)
    ensures cleaned(g(v), k)
{ lemma_pos(v, v.len() as int); }
pub proof fn lemma_half_step(v: Seq<Token>, i: int, k: Seq<E>, t: Token, retain: bool)
    requires half(v, i, k), 0 <= i < v.len(), v[i] == t || (sep(v[i]) && sep(t)),
        !sep(t) ==> retain,
        !retain && g(v.take(i)).len() > 0 && !k.last().gap && (i + 1 >= v.len() || !sep(v[i + 1])) ==> !req(g(v), g(v.take(i)).len() - 1),
    ensures half(v, i + 1, if retain { gstep(k, t) } else { k })
{
    lemma_pos(v, i);
    lemma_pos(v, i + 1);
    lemma_step(v, i);
    let (a, p, q) = (g(v), g(v.take(i)), g(v.take(i + 1)));
    let m = p.len() as int;
    let r = if retain { gstep(k, t) } else { k };
    assert forall|j: int| 0 <= j < q.len() implies (#[trigger] r[j]).t == a[j].t && (r[j].gap ==> q[j].gap) by {
        if j < m { assert(k[j].t == a[j].t); }
    }
    assert forall|j: int| 0 <= j < q.len() - 1 && a[j].gap && #[trigger] req(a, j) implies r[j].gap by {
        if j < m - 1 { assert(k[j].gap); } else { assert(j == m - 1); assert(p[j].gap); }
    }
}
pub open spec fn ends(p: Token) -> bool {
    (p is SelectorElement && !media(p)) || p is Other || p == Token::Char(ReservedChar::CloseParenthese) || p == Token::Char(ReservedChar::Star)
}
/// when the white space in v[i], after p, has no meaning
pub proof fn lemma_not_req(v: Seq<Token>, i: int, p: Token)
    requires 0 <= i < v.len(), sep(v[i]), i + 1 >= v.len() || !sep(v[i + 1]), !sep(p),
        ({ let (a, m) = (g(v), g(v.take(i)).len() as int);
           m > 0 && a[m - 1].t == tt(p)
           && (i + 1 < v.len() ==> {
                let n = v[i + 1];
                &&& !(((p is SelectorElement && !media(p)) || p is Other) && (n is Other || n == Token::Char(ReservedChar::OpenParenthese)))
                &&& !(ends(p) && starts(v, i + 1))
                &&& !(p == Token::Char(ReservedChar::Slash) && n == Token::Char(ReservedChar::Star))
                &&& (p == Token::Char(ReservedChar::CloseBracket) ==> n == Token::Char(ReservedChar::OpenCurlyBrace))
                &&& (math(a, m).0 ==> p == Token::Char(ReservedChar::CloseBracket))
           }) }),
    ensures !req(g(v), g(v.take(i)).len() - 1)
{
    let (a, m) = (g(v), g(v.take(i)).len() as int);
    lemma_pos(v, i + 1);
    lemma_step(v, i);
    if i + 1 < v.len() {
        assert(g(v.take(i + 1)).len() == m);
        if starts_word(a, m) { assert(starts(v, i + 1)); }
    }
}
} // mod lems

pub mod clean {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::lems::*;
use super::{ReservedChar, Operator, SelectorOperator};
broadcast use {group_base};

/// let mut b = b.into_iter(); v.retain(|_| b.next().unwrap())
#[verifier::external_body]
pub fn vx_retain<'a>(v: &mut Vec<Token<'a>>, b: Vec<bool>)
    requires b@.len() >= old(v)@.len()
    ensures final(v)@ == kept(old(v)@, b@)
{ unimplemented!() }

//@ fn src/css/token.rs opt starts_simple_selector
//@ spec
    requires v@.len() < usize::MAX,
    ensures r == starts(v@, pos as int),
//@ end

//@ fn src/css/token.rs clean_tokens
//@ rw let mut b = b . into_iter ( ) ; =>>
//@ rw assert_eq ! ( $$x , $$y ) =>> vx_assert($$x == $$y)
//@ rw v . retain ( $$x ) =>> vx_retain(&mut v, b)
//@ spec
    requires v@.len() < 0x7fff_ffff
    ensures cleaned(g(v@), g(r@)), no_comment(r@),
//@ start
    let ghost v0 = v@;
    proof { reveal(kept); reveal(math); lemma_g_empty(v0.take(0)); lemma_g_empty(kept(v0.take(0), Seq::<bool>::empty())); }
//@ loop 1
    invariant v@.len() == v0.len(), v0.len() < 0x7fff_ffff, i <= v0.len(), b@.len() == i,
        forall|k: int| 0 <= k < v0.len() ==> #[trigger] v@[k] == v0[k] || (k < i && sep(v@[k]) && sep(v0[k])),
        previous_element_index is None ==> kept(v@.take(i as int), b@).len() == 0,
        previous_element_index is Some ==> previous_element_index->0 < i && kept(v@.take(i as int), b@).len() > 0
            && kept(v@.take(i as int), b@).last() == v@[previous_element_index->0 as int],
        half(v0, i as int, g(kept(v@.take(i as int), b@))),
        (is_in_calc, paren as int) == math(g(v0), g(v0.take(i as int)).len() as int),
        -i <= paren <= i,
        forall|k: int| 0 <= k < i && b@[k] ==> !(#[trigger] v@[k] is Comment),
    ensures b@.len() == v@.len(), cleaned(g(v0), g(kept(v@, b@))), no_comment(kept(v@, b@)),
    decreases v0.len() - i
//@ loop 1 start
    let ghost i0 = i as int;
    let ghost a = g(v0);
    let ghost m = g(v0.take(i as int)).len() as int;
    let ghost vi = v@;
    let ghost p0 = previous_element_index;
    let ghost ki = kept(v@.take(i as int), b@);
    let ghost bi = b@;
    proof {
        reveal(math);
        if i0 == v0.len() { lemma_half_end(v0, g(ki)); lemma_kept_all(v@, b@); assert(v@.take(i0) =~= v@); }
    }
//@ loop 1 end
    proof {
        lemma_pos(v0, i0);
        lemma_step(v0, i0);
        lemma_kept_step(vi, v@, bi, b@.last());
        lemma_pos(v0, i0 + 1);
        if m > 0 && !g(ki).last().gap && !b@.last() && (i0 + 1 >= v0.len() || !sep(v0[i0 + 1])) {
            lemma_g_last(ki);
            assert(g(ki)[m - 1].t == a[m - 1].t);
            lemma_not_req(v0, i0, vi[p0->0 as int]);
        }
        lemma_half_step(v0, i0, g(ki), v@[i0], b@.last());
        lemma_g_push(ki, v@[i0]);
    }
//@ end
} // mod clean

pub mod tokt {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::tokz::*;
use super::tokf::*;
use super::lems::*;
use super::clean::*;
use super::{ReservedChar, Operator, SelectorOperator};
broadcast use {group_base, lemma_off0, lemma_at, lemma_off_len, group_tail};

//@ rw Peekable < CharIndices < '_ > > =>> CharIndices
//@ rw $s . char_indices ( ) . peekable ( ) =>> vx_char_indices($s)
//@ rw Some ( & ( _ , $c ) ) =>> Some((_, $c))
//@ rw & $s [ $$a .. $$b ] =>> vx_slice($s, $$a, $$b)
//@ rw $c . len_utf8 ( ) =>> vx_wid($c)
//@ rw source . len ( ) =>> vx_len(source)
//@ type src/css/token.rs Tokens

pub open spec fn clean_end(s: Seq<char>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> !reserved(#[trigger] s[k]) }
//@ fn src/css/token.rs tokenize
//@ attr #[verifier::rlimit(60)]
//@ spec
    requires source@.len() < 0x7fff_ffff,
    ensures match r {
        Ok(t) => css_tokens(source@) is Some && cleaned(css_tokens(source@)->0, g(t.0@)) && no_comment(t.0@),
        Err(_) => css_tokens(source@) is None,
    },
//@ start
    let ghost s = source@;
    proof { reveal(css); lemma_g_empty(Seq::<Token>::empty()); axiom_len(source); lemma_at(s, 0); }
//@ loop 1
    invariant_except_break v@.len() <= at(s, start as int),
        css_tokens(s) == css(s, at(s, start as int), iterator.idx(), g(v@), is_in_block as int, is_in_media, is_in_attribute_selector),
    invariant s == source@, s.len() < 0x7fff_ffff, off(s, s.len() as int) <= isize::MAX,
        iterator.src() == s, 0 <= iterator.idx() <= s.len(), is_off(s, start as int), at(s, start as int) <= iterator.idx(),
        clean_end(s, at(s, start as int), iterator.idx()),
        colon_ok(s, v@, at(s, start as int)),
        0 <= is_in_block <= iterator.idx(),
    ensures v@.len() < 0x7fff_ffff, css_tokens(s) == Some(g(v@)),
    decreases s.len() - iterator.idx()
//@ loop 1 start
    let ghost i = iterator.idx();
    let ghost v0 = v@;
    let ghost st = at(s, start as int);
    proof {
        lemma_css(s, st, i, g(v0), is_in_block as int, is_in_media, is_in_attribute_selector);
        lemma_off_mono(s, i, s.len() as int);
        lemma_off_mono(s, st, i);
        if i < s.len() { lemma_off_next(s, i); lemma_wid(s[i]); }
        if i + 1 < s.len() { assert(seq![s[i + 1]] =~= s.subrange(i + 1, i + 2)); }
    }
//@ end
} // mod tokt

//@ include out.vs
pub mod disp {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tstd::*;
use super::tok::*;
use super::lems::*;
use super::tokt::*;
use super::out::*;
use super::{ReservedChar, Operator, SelectorOperator};

// ================================================================ what is printed
pub open spec fn ttext(t: Token) -> Seq<char> {
    match t {
        Token::Comment(s) => s@,
        Token::License(s) => seq!['/', '*', '!'] + s@ + seq!['*', '/', '\n'],
        Token::Char(c) => seq![rch(c)],
        Token::SelectorElement(s) => setext(s),
        Token::String(s) => s@,
        Token::SelectorOperator(o) => seq![soch(o), '='],
        Token::Operator(o) => seq![opch(o)],
        Token::Other(s) => s@,
    }
}
pub open spec fn setext(s: SelectorElement) -> Seq<char> {
    match s {
        SelectorElement::PseudoClass(x) => cons(':', x@), SelectorElement::Class(x) => cons('.', x@), SelectorElement::Id(x) => cons('#', x@),
        SelectorElement::Tag(x) => x@, SelectorElement::Media(x) => cons('@', x@).push(' '),
    }
}
#[verifier::opaque]
pub open spec fn dtext(v: Seq<Token>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { dtext(v.drop_last()) + ttext(v.last()) }
}
pub proof fn lemma_dtext_take(v: Seq<Token>, i: int)
    requires 0 <= i < v.len()
    ensures dtext(v.take(i + 1)) == dtext(v.take(i)) + ttext(v[i])
{ reveal(dtext); assert(v.take(i + 1).drop_last() =~= v.take(i)); }
pub proof fn lemma_dtext_prefix(v: Seq<Token>, i: int) -> (x: Seq<char>)
    requires 0 <= i <= v.len()
    ensures dtext(v) == dtext(v.take(i)) + x
    decreases v.len() - i
{
    if i < v.len() {
        let x = lemma_dtext_prefix(v, i + 1);
        lemma_dtext_take(v, i);
        assert(dtext(v) =~= dtext(v.take(i)) + (ttext(v[i]) + x));
        ttext(v[i]) + x
    } else { assert(v.take(i) =~= v); assert(dtext(v) =~= dtext(v) + Seq::<char>::empty()); Seq::empty() }
}
/// an error after i tokens
pub proof fn lemma_dtext_err(v: Seq<Token>, i: int, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires 0 <= i < v.len(), wrote(a, b, dtext(v.take(i)), true), wrote(b, c, ttext(v[i]), false)
    ensures wrote(a, c, dtext(v), false)
{
    lemma_wrote_seq(a, b, c, dtext(v.take(i)), ttext(v[i]), false);
    lemma_dtext_take(v, i);
    let x = lemma_dtext_prefix(v, i + 1);
    lemma_wrote_more(a, c, dtext(v.take(i + 1)), x);
}

//@ rw fmt :: Formatter < '_ > =>> impl VxWrite
//@ rw fmt :: Result =>> Result<(), IoError>
//@ rw std :: io :: Write =>> VxWrite
//@ rw io :: Write =>> VxWrite
//@ rw std :: io :: Result < () > =>> Result<(), IoError>
//@ rw io :: Result < () > =>> Result<(), IoError>
//@ rw mut w : W =>> w : &mut W
//@ rw w : W =>> w : &mut W
//@ rw self . 0 . iter ( ) =>> vx_iter(&self.0)

/// v.iter()
pub struct VIter<'b, T> { pub v: &'b Vec<T>, pub i: usize }
impl<'b, T> VIter<'b, T> {
    pub fn next(&mut self) -> (r: Option<&'b T>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).v@.len() ==> r is Some && *r->0 == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
    { if self.i < self.v.len() { self.i = self.i + 1; Some(&self.v[self.i - 1]) } else { None } }
}
pub fn vx_iter<'b, T>(v: &'b Vec<T>) -> (r: VIter<'b, T>) ensures r.v == v, r.i == 0 { VIter { v, i: 0 } }
pub fn vx_into_iter<T>(t: T) -> (r: T) ensures r == t { t }

//@ fn src/css/token.rs impl=ReservedChar trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), seq![rch(*self)], r is Ok),
//@ end
//@ fn src/css/token.rs impl=Operator trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), seq![opch(*self)], r is Ok),
//@ end
//@ fn src/css/token.rs impl=SelectorOperator trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), seq![soch(*self), '='], r is Ok),
//@ start
    proof {
        reveal_strlit("~="); reveal_strlit("|="); reveal_strlit("$="); reveal_strlit("^="); reveal_strlit("*=");
        assert("~="@ =~= seq!['~', '=']); assert("|="@ =~= seq!['|', '=']); assert("$="@ =~= seq!['$', '=']); assert("^="@ =~= seq!['^', '=']); assert("*="@ =~= seq!['*', '=']);
    }
//@ end
//@ fn src/css/token.rs impl=SelectorElement trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), setext(*self), r is Ok),
//@ start
    proof {
        let o = f.out();
        reveal_strlit("."); reveal_strlit("#"); reveal_strlit("@"); reveal_strlit(":"); reveal_strlit(" ");
        match *self {
            SelectorElement::PseudoClass(x) => { assert(cons(':', x@) =~= ":"@ + x@); lemma_parts(o, ":"@, x@, ":"@ + x@); }
            SelectorElement::Class(x) => { assert(cons('.', x@) =~= "."@ + x@); lemma_parts(o, "."@, x@, "."@ + x@); }
            SelectorElement::Id(x) => { assert(cons('#', x@) =~= "#"@ + x@); lemma_parts(o, "#"@, x@, "#"@ + x@); }
            SelectorElement::Tag(x) => { }
            SelectorElement::Media(x) => {
                assert(cons('@', x@).push(' ') =~= ("@"@ + x@) + " "@);
                lemma_parts(o, "@"@, x@, "@"@ + x@);
                lemma_parts(o, "@"@ + x@, " "@, ("@"@ + x@) + " "@);
            }
        }
    }
//@ end
//@ fn src/css/token.rs impl=Token trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), ttext(*self), r is Ok),
//@ start
    proof {
        let o = f.out();
        reveal_strlit("/*!"); reveal_strlit("*/\n");
        match *self {
            Token::License(x) => {
                assert(ttext(*self) =~= ("/*!"@ + x@) + "*/\n"@);
                lemma_parts(o, "/*!"@, x@, "/*!"@ + x@);
                lemma_parts(o, "/*!"@ + x@, "*/\n"@, ("/*!"@ + x@) + "*/\n"@);
            }
            _ => { }
        }
    }
//@ end
//@ fn src/css/token.rs impl=Tokens write
//@ spec
    ensures wrote(old(w).out(), final(w).out(), dtext(self.0@), r is Ok),
//@ start
    let ghost o0 = w.out();
    proof { reveal(dtext); lemma_wrote_nil(o0); }
//@ loop 1
    invariant __it1.v@ == self.0@, __it1.i <= self.0@.len(), wrote(o0, w.out(), dtext(self.0@.take(__it1.i as int)), true), o0 == old(w).out(),
    ensures wrote(o0, w.out(), dtext(self.0@), true),
    decreases self.0@.len() - __it1.i
//@ loop 1 start
    let ghost wo = w.out();
    let ghost i0 = __it1.i as int;
    proof {
        assert(self.0@.take(self.0@.len() as int) =~= self.0@);
        if i0 < self.0@.len() {
            lemma_dtext_take(self.0@, i0);
            assert forall|c: Seq<u8>| #[trigger] wrote(wo, c, ttext(self.0@[i0]), false) implies wrote(o0, c, dtext(self.0@), false) by { lemma_dtext_err(self.0@, i0, o0, wo, c); }
            assert forall|c: Seq<u8>| #[trigger] wrote(wo, c, ttext(self.0@[i0]), true) implies wrote(o0, c, dtext(self.0@.take(i0 + 1)), true) by { lemma_wrote_seq(o0, wo, c, dtext(self.0@.take(i0)), ttext(self.0@[i0]), true); }
        }
    }
//@ end
//@ fn src/css/token.rs impl=Tokens trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), dtext(self.0@), r is Ok),
//@ start
    let ghost o0 = f.out();
    proof { reveal(dtext); lemma_wrote_nil(o0); }
//@ loop 1
    invariant __it1.v@ == self.0@, __it1.i <= self.0@.len(), wrote(o0, f.out(), dtext(self.0@.take(__it1.i as int)), true), o0 == old(f).out(),
    ensures wrote(o0, f.out(), dtext(self.0@), true),
    decreases self.0@.len() - __it1.i
//@ loop 1 start
    let ghost wo = f.out();
    let ghost i0 = __it1.i as int;
    proof {
        assert(self.0@.take(self.0@.len() as int) =~= self.0@);
        if i0 < self.0@.len() {
            lemma_dtext_take(self.0@, i0);
            assert forall|c: Seq<u8>| #[trigger] wrote(wo, c, ttext(self.0@[i0]), false) implies wrote(o0, c, dtext(self.0@), false) by { lemma_dtext_err(self.0@, i0, o0, wo, c); }
            assert forall|c: Seq<u8>| #[trigger] wrote(wo, c, ttext(self.0@[i0]), true) implies wrote(o0, c, dtext(self.0@.take(i0 + 1)), true) by { lemma_wrote_seq(o0, wo, c, dtext(self.0@.take(i0)), ttext(self.0@[i0]), true); }
        }
    }
//@ end

// ================================================================ code: mod.rs
//@ rw token :: Tokens =>> Tokens
//@ rw token :: tokenize ( $$c ) . map ( Minified ) =>> match tokenize($$c) { Ok(t) => Ok(Minified(t)), Err(e) => Err(e) }
//@ type src/css/mod.rs Minified
//@ fn src/css/mod.rs minify
//@ spec
    requires content@.len() < 0x7fff_ffff,
    ensures match r {
        Ok(t) => css_tokens(content@) is Some && cleaned(css_tokens(content@)->0, g(t.0.0@)) && no_comment(t.0.0@),
        Err(_) => css_tokens(content@) is None,
    },
//@ end
//@ fn src/css/mod.rs impl=Minified write
//@ spec
    ensures wrote(old(w).out(), final(w).out(), dtext(self.0.0@), r is Ok),
//@ end
//@ fn src/css/mod.rs impl=Minified trait=Display fmt
//@ spec
    ensures wrote(old(f).out(), final(f).out(), dtext(self.0.0@), r is Ok),
//@ end
} // mod disp

pub mod prop {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::spec::*;
use super::tok::*;
use super::lems::*;
use super::tokt::*;
use super::out::*;
use super::disp::*;
use super::{ReservedChar, Operator, SelectorOperator};

// ================================================================ C02, the input: white space and comments erased
/// the text of a token
pub open spec fn ttxt(t: T) -> Seq<char> {
    match t {
        T::Word(s) => s, T::Pseudo(s) => cons(':', s), T::At(s) => s, T::Str(s) => s,
        T::Lic(s) => seq!['/', '*', '!'] + s + seq!['*', '/'],
        T::SelOp(c) => seq![c, '='], T::Res(c) => seq![c], T::Op(c) => seq![c],
    }
}
#[verifier::opaque]
pub open spec fn flat(a: Seq<E>) -> Seq<char> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { flat(a.drop_last()) + ttxt(a.last().t) }
}
/// the text from s[i] on without the white space and the ordinary comments outside strings and
/// escapes, license comments written /*! ... */
#[verifier::opaque]
pub open spec fn solid(s: Seq<char>, i: int) -> Seq<char> decreases s.len() - i {
    if i < 0 || i >= s.len() { Seq::empty() }
    else {
        let c = s[i];
        if c == '\\' { if i + 1 < s.len() { seq![c, s[i + 1]] + solid(s, i + 2) } else { seq![c] } }
        else if c == '"' || c == '\'' {
            match str_end(s, i + 1, c) { Some(k) => if i < k < s.len() { s.subrange(i, k + 1) + solid(s, k + 1) } else { Seq::empty() }, None => s.skip(i) }
        } else if c == '/' && i + 1 < s.len() && s[i + 1] == '*' {
            match com_end(s, i + 3) {
                Some(k) => if !(i < k < s.len()) { Seq::empty() } else if license(s, i) { (seq!['/', '*', '!'] + s.subrange(i + 3, k - 1) + seq!['*', '/']) + solid(s, k + 1) } else { solid(s, k + 1) },
                None => Seq::empty(),
            }
        }
        else if blank(c) { solid(s, i + 1) }
        else { seq![c] + solid(s, i + 1) }
    }
}
proof fn lemma_flat_push(a: Seq<E>, e: E)
    ensures flat(a.push(e)) == flat(a) + ttxt(e.t)
{ reveal(flat); assert(a.push(e).drop_last() =~= a); }
proof fn lemma_flat_last(a: Seq<E>)
    requires a.len() > 0
    ensures flat(a) == flat(a.drop_last()) + ttxt(a.last().t)
{ reveal(flat); }
proof fn lemma_flat_mark(a: Seq<E>)
    ensures flat(mark(a)) == flat(a)
{ if a.len() > 0 { lemma_flat_last(a); lemma_flat_push(a.drop_last(), E { t: a.last().t, gap: true }); } }
proof fn lemma_flat_word(s: Seq<char>, a: int, b: int, acc: Seq<E>, sel: bool)
    requires 0 <= a <= b <= s.len()
    ensures flat(word(s, a, b, acc, sel)) == flat(acc) + s.subrange(a, b)
{
    let x = s.subrange(a, b);
    if x.len() == 0 { assert(flat(acc) + x =~= flat(acc)); }
    else {
        lemma_flat_push(acc, one(T::At(x)));
        lemma_flat_push(acc, one(T::Word(x)));
        if ends_in(acc, T::Res(':')) {
            lemma_flat_last(acc);
            lemma_flat_push(acc.drop_last(), one(T::Pseudo(x)));
            assert((flat(acc.drop_last()) + seq![':']) + x =~= flat(acc.drop_last()) + cons(':', x));
        }
    }
}
/// the tokens carry the whole text
proof fn lemma_css_flat(s: Seq<char>, st: int, i: int, acc: Seq<E>, depth: int, media: bool, attr: bool)
    requires 0 <= st <= i <= s.len(), css(s, st, i, acc, depth, media, attr) is Some
    ensures flat(css(s, st, i, acc, depth, media, attr)->0) == (flat(acc) + s.subrange(st, i)) + solid(s, i)
    decreases s.len() - i
{
    lemma_css(s, st, i, acc, depth, media, attr);
    let sl = sel(depth, media, attr);
    let r = css(s, st, i, acc, depth, media, attr)->0;
    lemma_flat_word(s, st, i, acc, sl);
    if i >= s.len() {
        assert(solid(s, i) =~= Seq::<char>::empty()) by { reveal(solid); }
        assert((flat(acc) + s.subrange(st, i)) + solid(s, i) =~= flat(acc) + s.subrange(st, i));
    } else if !reserved(s[i]) {
        assert(solid(s, i) == seq![s[i]] + solid(s, i + 1)) by { reveal(solid); }
        lemma_css_flat(s, st, i + 1, acc, depth, media, attr);
        assert((flat(acc) + s.subrange(st, i + 1)) + solid(s, i + 1) =~= (flat(acc) + s.subrange(st, i)) + (seq![s[i]] + solid(s, i + 1)));
    } else {
        let c = s[i];
        let a = word(s, st, i, acc, sl);
        let m = media || (a.len() > 0 && a.last().t is At && !a.last().gap);
        let j = i + 1;
        assert(s.subrange(j, j) =~= Seq::<char>::empty());
        lemma_flat_push(a, one(T::Res(c)));
        if c == '\\' {
            let a2 = a.push(one(T::Res('\\')));
            if j < s.len() {
                assert(solid(s, i) == seq![c, s[j]] + solid(s, j + 1)) by { reveal(solid); }
                let a3 = a2.push(one(T::Word(seq![s[j]])));
                lemma_flat_push(a2, one(T::Word(seq![s[j]])));
                lemma_css_flat(s, j + 1, j + 1, a3, depth, m, attr);
                assert(s.subrange(j + 1, j + 1) =~= Seq::<char>::empty());
                assert((flat(a3) + s.subrange(j + 1, j + 1)) + solid(s, j + 1) =~= flat(a) + (seq![c, s[j]] + solid(s, j + 1)));
            } else {
                assert(solid(s, i) == seq![c] && solid(s, j) =~= Seq::<char>::empty()) by { reveal(solid); }
                lemma_css_flat(s, j, j, a2, depth, m, attr);
                assert((flat(a2) + s.subrange(j, j)) + solid(s, j) =~= flat(a) + seq![c]);
            }
        } else if c == '"' || c == '\'' {
            let k = str_end(s, j, c)->0;
            assert(solid(s, i) == s.subrange(i, k + 1) + solid(s, k + 1)) by { reveal(solid); }
            assert(s.subrange(k + 1, k + 1) =~= Seq::<char>::empty());
            let a2 = a.push(one(T::Str(s.subrange(i, k + 1))));
            lemma_flat_push(a, one(T::Str(s.subrange(i, k + 1))));
            lemma_css_flat(s, k + 1, k + 1, a2, depth, m, attr);
            assert((flat(a2) + s.subrange(k + 1, k + 1)) + solid(s, k + 1) =~= flat(a) + (s.subrange(i, k + 1) + solid(s, k + 1)));
        } else if c == '/' && j < s.len() && s[j] == '*' {
            let k = com_end(s, i + 3)->0;
            let l = T::Lic(s.subrange(i + 3, k - 1));
            assert(solid(s, i) == if license(s, i) { ttxt(l) + solid(s, k + 1) } else { solid(s, k + 1) }) by { reveal(solid); }
            let a2 = if license(s, i) { a.push(one(l)) } else { mark(a) };
            lemma_flat_push(a, one(l));
            lemma_flat_mark(a);
            lemma_css_flat(s, k + 1, k + 1, a2, depth, m, attr);
            assert(s.subrange(k + 1, k + 1) =~= Seq::<char>::empty());
            if license(s, i) { assert((flat(a2) + s.subrange(k + 1, k + 1)) + solid(s, k + 1) =~= flat(a) + (ttxt(l) + solid(s, k + 1))); }
            else { assert((flat(a2) + s.subrange(k + 1, k + 1)) + solid(s, k + 1) =~= flat(a) + solid(s, k + 1)); }
        } else if c == '=' && selop(a) {
            let x = a.last().t->Res_0;
            assert(solid(s, i) == seq![c] + solid(s, j)) by { reveal(solid); }
            let a2 = a.drop_last().push(one(T::SelOp(x)));
            lemma_flat_last(a);
            lemma_flat_push(a.drop_last(), one(T::SelOp(x)));
            lemma_css_flat(s, j, j, a2, depth, m, attr);
            assert((flat(a2) + s.subrange(j, j)) + solid(s, j) =~= flat(a) + (seq![c] + solid(s, j)));
        } else if blank(c) {
            assert(solid(s, i) == solid(s, j)) by { reveal(solid); }
            let a2 = if a.len() > 0 && sensitive(a.last().t) { mark(a) } else { a };
            lemma_flat_mark(a);
            lemma_css_flat(s, j, j, a2, depth, m, attr);
            assert((flat(a2) + s.subrange(j, j)) + solid(s, j) =~= flat(a) + solid(s, j));
        } else {
            let a2 = a.push(one(T::Res(c)));
            assert(solid(s, i) == seq![c] + solid(s, j)) by { reveal(solid); }
            let (d2, m2, t2) = if c == '[' { (depth, m, true) } else if c == ']' { (depth, m, false) } else if c == '{' { (depth + 1, m, attr) }
                else if c == '}' { (depth - 1, m && depth != 1, attr) } else if c == ';' { (depth, m && depth != 0, attr) } else { (depth, m, attr) };
            lemma_css_flat(s, j, j, a2, d2, m2, t2);
            assert((flat(a2) + s.subrange(j, j)) + solid(s, j) =~= flat(a) + (seq![c] + solid(s, j)));
        }
    }
}
proof fn lemma_flat_cleaned(a: Seq<E>, k: Seq<E>)
    requires cleaned(a, k)
    ensures flat(k) == flat(a)
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= k); }
    else {
        lemma_flat_last(a);
        lemma_flat_last(k);
        assert(k.last().t == a.last().t);
        lemma_flat_types(a.drop_last(), k.drop_last());
    }
}
proof fn lemma_flat_types(a: Seq<E>, k: Seq<E>)
    requires a.len() == k.len(), forall|j: int| 0 <= j < a.len() ==> (#[trigger] k[j]).t == a[j].t
    ensures flat(k) == flat(a)
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= k); }
    else {
        lemma_flat_last(a);
        lemma_flat_last(k);
        assert(k.last().t == a.last().t);
        assert forall|j: int| 0 <= j < a.len() - 1 implies (#[trigger] k.drop_last()[j]).t == a.drop_last()[j].t by { assert(k[j].t == a[j].t); }
        lemma_flat_types(a.drop_last(), k.drop_last());
    }
}

// ================================================================ C02, C03, the output
pub open spec fn blanks(o: Seq<char>) -> bool { forall|j: int| 0 <= j < o.len() ==> blank(#[trigger] o[j]) }
/// o is the tokens' texts in order, with white space after exactly those that have a gap, after
/// at-words and after license comments
#[verifier::opaque]
pub open spec fn shown(a: Seq<E>, o: Seq<char>) -> bool decreases a.len() {
    if a.len() == 0 { blanks(o) }
    else { exists|n: int, m: int| 0 <= n <= m <= o.len() && shown(a.drop_last(), o.take(n)) && #[trigger] last_shown(a.last(), o, n, m) }
}
/// the last token is o[n..m]
pub open spec fn last_shown(e: E, o: Seq<char>, n: int, m: int) -> bool {
    o.subrange(n, m) == ttxt(e.t) && blanks(o.skip(m)) && ((e.gap || e.t is At || e.t is Lic) <==> m < o.len())
}
proof fn lemma_shown(v: Seq<Token>)
    requires no_comment(v)
    ensures shown(g(v), dtext(v))
    decreases v.len()
{
    reveal(shown); reveal(dtext); reveal(g);
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies !(#[trigger] d[k] is Comment) by { assert(d[k] == v[k]); }
        lemma_shown(d);
        let t = v.last();
        assert(t == v[v.len() - 1]);
        let (o, p) = (dtext(v), dtext(d));
        let a = g(d);
        if sep(t) {
            if a.len() > 0 {
                let (n, m) = choose|n: int, m: int| 0 <= n <= m <= p.len() && shown(a.drop_last(), p.take(n)) && #[trigger] last_shown(a.last(), p, n, m);
                assert(mark(a).drop_last() =~= a.drop_last());
                assert(o.take(n) =~= p.take(n));
                assert(o.subrange(n, m) =~= p.subrange(n, m));
                assert(blanks(o.skip(m))) by {
                    assert forall|j: int| 0 <= j < o.skip(m).len() implies blank(#[trigger] o.skip(m)[j]) by {
                        if j < p.skip(m).len() { assert(p.skip(m)[j] == o.skip(m)[j]); }
                    }
                }
                assert(last_shown(mark(a).last(), o, n, m));
            } else {
                assert forall|j: int| 0 <= j < o.len() implies blank(#[trigger] o[j]) by { if j < p.len() { assert(p[j] == o[j]); } }
            }
        } else {
            let b = a.push(one(tt(t)));
            assert(b.drop_last() =~= a);
            let n = p.len() as int;
            let m = n + ttxt(tt(t)).len();
            assert(o.take(n) =~= p);
            assert(o.subrange(n, m) =~= ttxt(tt(t)));
            assert(last_shown(b.last(), o, n, m));
        }
    }
}

// ================================================================ the properties, over the contracts
/// C01: no panic, and an error exactly for a malformed text
pub fn prop_c01(css: &str, f: &mut impl VxWrite) -> (r: bool)
    requires css@.len() < 0x7fff_ffff
    ensures r == (css_tokens(css@) is Some)
{
    match minify(css) { Ok(m) => { let _ = m.fmt(f); true } Err(_) => false }
}
/// C02: the output is the input's text, with different white space between tokens only
pub fn prop_c02(css: &str, f: &mut impl VxWrite) -> (r: bool)
    requires css@.len() < 0x7fff_ffff
    ensures r ==> exists|k: Seq<E>, o: Seq<char>| #[trigger] shown(k, o) && flat(k) == solid(css@, 0) && final(f).out() == old(f).out() + enc(o)
{
    match minify(css) {
        Ok(m) => {
            proof {
                lemma_shown(m.0.0@);
                lemma_flat_cleaned(css_tokens(css@)->0, g(m.0.0@));
                lemma_css_flat(css@, 0, 0, Seq::empty(), 0, false, false);
                reveal(flat);
                assert((flat(Seq::<E>::empty()) + css@.subrange(0, 0)) + solid(css@, 0) =~= solid(css@, 0));
                reveal(wrote);
            }
            m.fmt(f).is_ok()
        }
        Err(_) => false,
    }
}
/// C03: white space that has a meaning is there, and none where there was none
pub fn prop_c03(css: &str, f: &mut impl VxWrite) -> (r: bool)
    requires css@.len() < 0x7fff_ffff
    ensures r ==> exists|k: Seq<E>, o: Seq<char>| #[trigger] shown(k, o) && cleaned(css_tokens(css@)->0, k) && final(f).out() == old(f).out() + enc(o)
{
    match minify(css) {
        Ok(m) => {
            proof { lemma_shown(m.0.0@); reveal(wrote); }
            m.fmt(f).is_ok()
        }
        Err(_) => false,
    }
}
} // mod prop
fn main() {}
}
