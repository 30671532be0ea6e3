//@ include prelude.vs
//@ include text.vs
//@ include out.vs
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/js/token.rs ReservedChar
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/js/token.rs Keyword
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/js/token.rs Condition
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/js/token.rs Operation

pub mod jt {
use vstd::prelude::*;
use super::base::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ what a token is
/// a token, with its text as a sequence of characters
pub enum J {
    Keyword(Keyword),
    Char(ReservedChar),
    String(Seq<char>),
    Comment(Seq<char>),
    License(Seq<char>),
    Other(Seq<char>),
    Regex { regex: Seq<char>, is_global: bool, is_interactive: bool },
    Condition(Condition),
    Operation(Operation),
    CreatedVarDecl(Seq<char>),
    CreatedVar(Seq<char>),
    Number(usize),
    FloatingNumber(Seq<char>),
}
pub open spec fn rch(c: ReservedChar) -> char {
    match c {
        ReservedChar::Comma => ',', ReservedChar::OpenParenthese => '(', ReservedChar::CloseParenthese => ')',
        ReservedChar::OpenCurlyBrace => '{', ReservedChar::CloseCurlyBrace => '}', ReservedChar::OpenBracket => '[',
        ReservedChar::CloseBracket => ']', ReservedChar::Colon => ':', ReservedChar::SemiColon => ';', ReservedChar::Dot => '.',
        ReservedChar::Quote => '\'', ReservedChar::DoubleQuote => '"', ReservedChar::ExclamationMark => '!',
        ReservedChar::QuestionMark => '?', ReservedChar::Slash => '/', ReservedChar::Modulo => '%', ReservedChar::Star => '*',
        ReservedChar::Minus => '-', ReservedChar::Plus => '+', ReservedChar::EqualSign => '=', ReservedChar::Backslash => '\\',
        ReservedChar::Space => ' ', ReservedChar::Tab => '\t', ReservedChar::Backline => '\n', ReservedChar::LessThan => '<',
        ReservedChar::SuperiorThan => '>', ReservedChar::Pipe => '|', ReservedChar::Ampersand => '&', ReservedChar::BackTick => '`',
    }
}
/// blanks and line ends
pub open spec fn white(t: J) -> bool { t == J::Char(ReservedChar::Space) || t == J::Char(ReservedChar::Tab) || t == J::Char(ReservedChar::Backline) }
/// a token that says nothing: a comment, a blank or a line end
pub open spec fn idle(t: J) -> bool { t is Comment || white(t) }
pub open spec fn jch(t: J, c: ReservedChar) -> bool { t == J::Char(c) }
} // mod jt

pub mod jtok {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use super::base::*;
use super::jt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ code: types
//@ type src/js/token.rs Token
/// what a token of the code stands for
pub open spec fn tv(t: Token) -> J {
    match t {
        Token::Keyword(k) => J::Keyword(k),
        Token::Char(c) => J::Char(c),
        Token::String(s) => J::String(s@),
        Token::Comment(s) => J::Comment(s@),
        Token::License(s) => J::License(s@),
        Token::Other(s) => J::Other(s@),
        Token::Regex { regex, is_global, is_interactive } => J::Regex { regex: regex@, is_global, is_interactive },
        Token::Condition(c) => J::Condition(c),
        Token::Operation(o) => J::Operation(o),
        Token::CreatedVarDecl(s) => J::CreatedVarDecl(s@),
        Token::CreatedVar(s) => J::CreatedVar(s@),
        Token::Number(n) => J::Number(n),
        Token::FloatingNumber(s) => J::FloatingNumber(s@),
    }
}
pub open spec fn vv(v: Seq<Token>) -> Seq<J> { Seq::new(v.len(), |k: int| tv(v[k])) }
pub broadcast proof fn lemma_vv_push(v: Seq<Token>, t: Token)
    ensures #[trigger] vv(v.push(t)) == vv(v).push(tv(t))
{ assert(vv(v.push(t)) =~= vv(v).push(tv(t))); }
pub broadcast proof fn lemma_vv_pop(v: Seq<Token>)
    requires v.len() > 0
    ensures #[trigger] vv(v.subrange(0, v.len() - 1)) == vv(v).drop_last()
{ assert(vv(v.subrange(0, v.len() - 1)) =~= vv(v).drop_last()); }
pub broadcast proof fn lemma_vv_empty(v: Seq<Token>)
    requires v.len() == 0
    ensures #[trigger] vv(v) == Seq::<J>::empty()
{ assert(vv(v) =~= Seq::<J>::empty()); }
pub broadcast group group_vv { lemma_vv_push, lemma_vv_pop, lemma_vv_empty }

/// the derived equality of Token
impl<'a> PartialEqSpecImpl for Token<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { tv(*self) == tv(*o) }
}
impl<'a> PartialEq for Token<'a> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
/// the derived Clone of Token
impl<'a> Clone for Token<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures tv(r) == tv(*self) { unimplemented!() }
}
/// a list of tokens (what Deref gives to a method call or an index is made explicit: here, or by a rewrite)
//@ type src/js/token.rs Tokens
//@ rw & Self :: Target =>> &Vec<Token<'_>>
//@ fn src/js/token.rs impl=Tokens trait=Deref deref
//@ spec
    ensures *r == self.0,
//@ end
impl<'a> Tokens<'a> {
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.deref().len() }
}

/// v.iter().rev()
pub struct VxRev<'a, T> { pub s: &'a [T], pub n: usize }
impl<'a, T> VxRev<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).n <= old(self).s@.len()
        ensures final(self).s == old(self).s,
            old(self).n > 0 ==> r == Some(&old(self).s@[old(self).n - 1]) && final(self).n == old(self).n - 1,
            old(self).n == 0 ==> r is None && final(self).n == 0,
    { if self.n > 0 { self.n -= 1; Some(&self.s[self.n]) } else { None } }
}
pub fn vx_rev<'a, T>(s: &'a [T]) -> (r: VxRev<'a, T>) ensures r.s@ == s@, r.n == s@.len() { VxRev { s, n: s.len() } }

// ================================================================ code: what the tokens are
//@ fn src/js/token.rs impl=ReservedChar is_white_character
//@ spec
    ensures r == white(J::Char(*self)),
//@ end
//@ fn src/js/token.rs impl=Keyword opt requires_before
//@ spec
    ensures r == (*self == Keyword::In || *self == Keyword::InstanceOf),
//@ end
//@ fn src/js/token.rs impl=Keyword opt is_value
//@ spec
    ensures r == (*self == Keyword::False || *self == Keyword::Null || *self == Keyword::This || *self == Keyword::True),
//@ end
//@ fn src/js/token.rs impl=Token is_comment
//@ spec
    ensures r == (tv(*self) is Comment),
//@ end
//@ fn src/js/token.rs impl=Token is_license
//@ spec
    ensures r == (tv(*self) is License),
//@ end
//@ fn src/js/token.rs impl=Token is_reserved_char
//@ spec
    ensures r == (tv(*self) is Char),
//@ end
//@ fn src/js/token.rs impl=Token get_char
//@ spec
    ensures r == (match tv(*self) { J::Char(c) => Some(c), _ => None }),
//@ end
//@ fn src/js/token.rs impl=Token eq_char
//@ spec
    ensures r == (tv(*self) == J::Char(rc)),
//@ end
//@ fn src/js/token.rs impl=Token eq_operation
//@ spec
    ensures r == (tv(*self) == J::Operation(ope)),
//@ end
//@ fn src/js/token.rs impl=Token is_operation
//@ spec
    ensures r == (tv(*self) is Operation),
//@ end
//@ fn src/js/token.rs impl=Token eq_condition
//@ spec
    ensures r == (tv(*self) == J::Condition(cond)),
//@ end
//@ fn src/js/token.rs impl=Token is_condition
//@ spec
    ensures r == (tv(*self) is Condition),
//@ end
//@ fn src/js/token.rs impl=Token is_other
//@ spec
    ensures r == (tv(*self) is Other),
//@ end
//@ fn src/js/token.rs impl=Token get_other
//@ spec
    ensures r is Some == (tv(*self) is Other), r is Some ==> tv(*self) == J::Other(r->0@),
//@ end
//@ fn src/js/token.rs impl=Token is_white_character
//@ spec
    ensures r == white(tv(*self)),
//@ end
//@ fn src/js/token.rs impl=Token is_keyword
//@ spec
    ensures r == (tv(*self) is Keyword),
//@ end
//@ fn src/js/token.rs impl=Token get_keyword
//@ spec
    ensures r == (match tv(*self) { J::Keyword(k) => Some(k), _ => None }),
//@ end
//@ fn src/js/token.rs impl=Token is_string
//@ spec
    ensures r == (tv(*self) is String),
//@ end
//@ fn src/js/token.rs impl=Token get_string
//@ spec
    ensures r is Some == (tv(*self) is String), r is Some ==> tv(*self) == J::String(r->0@),
//@ end
//@ fn src/js/token.rs impl=Token is_regex
//@ spec
    ensures r == (tv(*self) is Regex),
//@ end
//@ fn src/js/token.rs impl=Token is_created_var_decl
//@ spec
    ensures r == (tv(*self) is CreatedVarDecl),
//@ end
//@ fn src/js/token.rs impl=Token is_created_var
//@ spec
    ensures r == (tv(*self) is CreatedVar),
//@ end
//@ fn src/js/token.rs impl=Token is_number
//@ spec
    ensures r == (tv(*self) is Number),
//@ end
//@ fn src/js/token.rs impl=Token is_floating_number
//@ spec
    ensures r == (tv(*self) is FloatingNumber),
//@ end
} // mod jtok
