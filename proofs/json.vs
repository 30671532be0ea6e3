//@ include json_spec.vs
//@ include text.vs
//@ include out.vs
pub mod wr {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::out::*;
/// of the text `all` everything but its last part `todo` is written
#[verifier::opaque]
pub open spec fn written(o: Seq<u8>, now: Seq<u8>, all: Seq<char>, todo: Seq<char>) -> bool {
    let k = all.len() - todo.len();
    0 <= k && todo == all.skip(k) && wrote(o, now, all.take(k), true)
}
pub broadcast proof fn lemma_written_start(o: Seq<u8>, all: Seq<char>)
    ensures #[trigger] written(o, o, all, all)
{ reveal(written); assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::empty()); lemma_wrote_nil(o); }
pub broadcast proof fn lemma_written_step(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, all: Seq<char>, todo: Seq<char>, todo2: Seq<char>, c: char)
    requires #[trigger] written(o, a, all, todo), todo == #[trigger] cons(c, todo2), #[trigger] wrote(a, b, seq![c], true)
    ensures written(o, b, all, todo2)
{
    reveal(written);
    let k = all.len() - todo.len();
    assert(todo.len() == todo2.len() + 1);
    assert(todo2 =~= all.skip(k + 1)) by {
        assert forall|i: int| 0 <= i < todo2.len() implies todo2[i] == all.skip(k + 1)[i] by { assert(todo[i + 1] == todo2[i]); }
    }
    assert(all[k] == todo[0]);
    assert(all.take(k + 1) =~= all.take(k) + seq![c]);
    lemma_wrote_seq(o, a, b, all.take(k), seq![c], true);
}
pub broadcast proof fn lemma_written_err(o: Seq<u8>, a: Seq<u8>, b: Seq<u8>, all: Seq<char>, todo: Seq<char>, todo2: Seq<char>, c: char)
    requires #[trigger] written(o, a, all, todo), todo == #[trigger] cons(c, todo2), #[trigger] wrote(a, b, seq![c], false)
    ensures wrote(o, b, all, false)
{
    reveal(written);
    let k = all.len() - todo.len();
    assert(all[k] == todo[0]);
    assert(all =~= (all.take(k) + seq![c]) + all.skip(k + 1));
    lemma_wrote_seq(o, a, b, all.take(k), seq![c], false);
    lemma_wrote_more(o, b, all.take(k) + seq![c], all.skip(k + 1));
}
pub broadcast proof fn lemma_written_end(o: Seq<u8>, now: Seq<u8>, all: Seq<char>, todo: Seq<char>)
    requires #[trigger] written(o, now, all, todo), todo.len() == 0
    ensures wrote(o, now, all, true)
{ reveal(written); assert(all.take(all.len() as int) =~= all); }
} // mod wr

pub mod code {
use vstd::prelude::*;
use super::base::*;
use super::spec::*;
use super::text::*;
use super::out::*;
use super::wr::*;
broadcast use {group_base, group_json, lemma_written_start, lemma_written_step, lemma_written_err, lemma_written_end};

//@ include json_min.vs

// ================================================================ trusted: std iterators, writers
#[verifier::external_body]
pub struct Chars<'a> { it: std::str::Chars<'a> }
impl<'a> View for Chars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Chars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.it.next() }
}
#[verifier::external_body]
pub fn str_chars<'a>(s: &'a str) -> (r: Chars<'a>) ensures r@ == s@ { unimplemented!() }

pub fn vx_into_iter<T>(t: T) -> (r: T) ensures r == t { t }
#[verifier::external_body]
pub fn vx_clone<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }

// ================================================================ code: string.rs
//@ rw < Chars < 'a > as Iterator > :: Item =>> char
//@ rw FnMut $x -> bool =>> JsonPred
//@ rw ( self . predicate ) ( $$a , $$b , $$c ) =>> self . predicate . call ( $$a , $$b , $$c )
//@ rw std :: io :: Write =>> VxWrite
//@ rw io :: Write =>> VxWrite
//@ rw std :: io :: Result < () > =>> Result<(), IoError>
//@ rw io :: Result < () > =>> Result<(), IoError>
//@ rw fmt :: Result =>> Result<(), IoError>
//@ rw fmt :: Formatter < '_ > =>> impl VxWrite
//@ rw mut w : W =>> w : &mut W
//@ rw write ! ( $w , "{token}" ) =>> $w . write_char ( token )
//@ rw ( * self ) . clone ( ) =>> vx_clone ( self )
//@ rw self . clone ( ) =>> vx_clone ( self )

//@ type src/json/string.rs JsonMultiFilter

impl<'a, P: Clone> JsonMultiFilter<'a, P> {
    pub open spec fn wf(self) -> bool {
        self.minifier.wf() && (self.initialized && self.item1 is None ==> self.iter@.len() == 0)
    }
    /// characters not handled yet
    pub open spec fn rest(self) -> Seq<char> {
        if self.initialized && self.item1 is Some { cons(self.item1->0, self.iter@) } else { self.iter@ }
    }
    /// what is still to come out
    pub open spec fn todo(self) -> Seq<char> { jfilter(self.minifier.ctx(), self.rest()) }
}

//@ fn src/json/string.rs impl=JsonMultiFilter new
//@ spec
    ensures r.wf(), r.todo() == jmin(iter@),
//@ end

//@ fn src/json/string.rs impl=JsonMultiFilter trait=Iterator next
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r is None ==> old(self).todo() == Seq::<char>::empty() && final(self).todo() == Seq::<char>::empty(),
        r is Some ==> old(self).todo() == cons(r->0, final(self).todo()) && final(self).rest().len() < old(self).rest().len(),
//@ loop 1
    invariant self.wf(), self.initialized, self.todo() == old(self).todo(), self.rest().len() <= old(self).rest().len(),
    ensures self.wf(), self.rest().len() == 0, self.todo() == old(self).todo(),
    decreases self.rest().len()
//@ end

//@ fn src/json/string.rs impl=JsonMultiFilter write
//@ spec
    requires self.wf(),
    ensures wrote(old(w).out(), final(w).out(), self.todo(), r is Ok),
//@ loop 1
    invariant __it1.wf(), written(old(w).out(), w.out(), self.todo(), __it1.todo()),
    ensures wrote(old(w).out(), w.out(), self.todo(), true),
    decreases __it1.rest().len()
//@ end

//@ fn src/json/string.rs impl=JsonMultiFilter trait=Display fmt
//@ spec
    requires self.wf(),
    ensures wrote(old(f).out(), final(f).out(), self.todo(), r is Ok),
//@ loop 1
    invariant __it1.wf(), written(old(f).out(), f.out(), self.todo(), __it1.todo()),
    ensures wrote(old(f).out(), f.out(), self.todo(), true),
    decreases __it1.rest().len()
//@ end

// ================================================================ code: mod.rs
//@ rw $x . chars ( ) =>> str_chars ( $x )
//@ rw w : W =>> w : & mut W
//@ type src/json/mod.rs Minified

//@ fn src/json/mod.rs minify
//@ rw keep_element =>> JsonMethod { }
//@ spec
    ensures r.0.wf(), r.0.todo() == jmin(json@),
//@ end

//@ fn src/json/mod.rs impl=Minified write
//@ spec
    requires self.0.wf(),
    ensures wrote(old(w).out(), final(w).out(), self.0.todo(), r is Ok),
//@ end

//@ fn src/json/mod.rs impl=Minified trait=Display fmt
//@ spec
    requires self.0.wf(),
    ensures wrote(old(f).out(), final(f).out(), self.0.todo(), r is Ok),
//@ end

// ================================================================ the properties, over the contracts
/// J01, W01: to_string() and write() give jmin of the input
pub fn prop_to_string<W: VxWrite>(json: &str, f: &mut W) -> (r: Result<(), IoError>)
    ensures wrote(old(f).out(), final(f).out(), jmin(json@), r is Ok)
{ minify(json).fmt(f) }
pub fn prop_write<W: VxWrite>(json: &str, w: &mut W) -> (r: Result<(), IoError>)
    ensures wrote(old(w).out(), final(w).out(), jmin(json@), r is Ok)
{ minify(json).write(w) }

} // mod code
fn main() {}
}
