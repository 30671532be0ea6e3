pub mod jtxt {
use vstd::prelude::*;
use super::base::*;
use super::jt::*;
use super::{ReservedChar, Keyword, Condition, Operation};

// ================================================================ the text of a token
pub open spec fn ktext(x: Keyword) -> Seq<char> {
    match x {
        Keyword::Break => "break"@,
        Keyword::Case => "case"@,
        Keyword::Catch => "catch"@,
        Keyword::Const => "const"@,
        Keyword::Continue => "continue"@,
        Keyword::Default => "default"@,
        Keyword::Do => "do"@,
        Keyword::Else => "else"@,
        Keyword::False => "false"@,
        Keyword::Finally => "finally"@,
        Keyword::Function => "function"@,
        Keyword::For => "for"@,
        Keyword::If => "if"@,
        Keyword::In => "in"@,
        Keyword::InstanceOf => "instanceof"@,
        Keyword::Let => "let"@,
        Keyword::New => "new"@,
        Keyword::Null => "null"@,
        Keyword::Private => "private"@,
        Keyword::Protected => "protected"@,
        Keyword::Public => "public"@,
        Keyword::Return => "return"@,
        Keyword::Switch => "switch"@,
        Keyword::This => "this"@,
        Keyword::Throw => "throw"@,
        Keyword::True => "true"@,
        Keyword::Try => "try"@,
        Keyword::Typeof => "typeof"@,
        Keyword::Static => "static"@,
        Keyword::Var => "var"@,
        Keyword::While => "while"@,
    }
}
pub open spec fn ctext(x: Condition) -> Seq<char> {
    match x {
        Condition::And => "&&"@,
        Condition::Or => "||"@,
        Condition::DifferentThan => "!="@,
        Condition::SuperDifferentThan => "!=="@,
        Condition::EqualTo => "=="@,
        Condition::SuperEqualTo => "==="@,
        Condition::SuperiorThan => ">"@,
        Condition::SuperiorOrEqualTo => ">="@,
        Condition::InferiorThan => "<"@,
        Condition::InferiorOrEqualTo => "<="@,
    }
}
pub open spec fn otext(x: Operation) -> Seq<char> {
    match x {
        Operation::Addition => "+"@,
        Operation::AdditionEqual => "+="@,
        Operation::Subtract => "-"@,
        Operation::SubtractEqual => "-="@,
        Operation::Multiply => "*"@,
        Operation::MultiplyEqual => "*="@,
        Operation::Divide => "/"@,
        Operation::DivideEqual => "/="@,
        Operation::Modulo => "%"@,
        Operation::ModuloEqual => "%="@,
        Operation::Equal => "="@,
    }
}
/// the digits of a number
pub open spec fn dec(n: int) -> Seq<char> decreases n {
    if n < 10 { seq![dig(n)] } else { dec(n / 10).push(dig(n % 10)) }
}
pub open spec fn dig(d: int) -> char {
    if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' }
    else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' }
}
/// a `*/` in s
pub open spec fn has_end(s: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() - 1 && #[trigger] s[k] == '*' && s[k + 1] == '/' }
/// what a token is printed as; a comment that contains `*/` was a line comment
pub open spec fn jtext(t: J) -> Seq<char> {
    match t {
        J::Keyword(k) => ktext(k),
        J::Char(c) => seq![rch(c)],
        J::String(s) => s,
        J::Other(s) => s,
        J::Comment(s) => if has_end(s) { seq!['/', '/'] + s + seq!['\n'] } else { seq!['/', '*'] + s + seq!['*', '/'] },
        J::License(s) => seq!['/', '*', '!'] + s + seq!['*', '/'],
        J::Regex { regex, is_global, is_interactive } =>
            seq!['/'] + regex + seq!['/'] + (if is_global { seq!['g'] } else { Seq::empty() }) + (if is_interactive { seq!['i'] } else { Seq::empty() }),
        J::Condition(c) => ctext(c),
        J::Operation(o) => otext(o),
        J::CreatedVarDecl(s) => s,
        J::CreatedVar(s) => s,
        J::Number(n) => dec(n as int),
        J::FloatingNumber(s) => s,
    }
}

// ================================================================ quotes
pub open spec fn quote(c: char) -> bool { c == '"' || c == '\'' || c == '`' }
/// the text of a string literal: it begins and ends with a quote
pub open spec fn quoted(s: Seq<char>) -> bool { s.len() >= 2 && quote(s[0]) && quote(s.last()) }
pub open spec fn all_quoted(v: Seq<J>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is String ==> quoted(v[i]->String_0) }
} // mod jtxt
