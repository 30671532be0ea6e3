#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind {
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
    AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, Interrupted, Unsupported, UnexpectedEof, OutOfMemory,
    ResourceBusy, FileTooLarge, Other, IsADirectory, NotADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, InvalidFilename, HostUnreachable,
    NetworkUnreachable, NetworkDown, NotSeekable, QuotaExceeded, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, ArgumentListTooLong,
}
pub mod out {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::text::*;
pub use super::ErrorKind;

// ================================================================ writers
pub struct IoError { pub id: int }
impl IoError {
    pub uninterp spec fn sk(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.sk() { unimplemented!() }
}
//@ rw std :: io :: ErrorKind =>> ErrorKind
//@ rw io :: ErrorKind =>> ErrorKind
/// what the writer had, what it has, the text that was to be written, and whether it was; an error
/// leaves a prefix of the text's bytes
#[verifier::opaque]
pub open spec fn wrote(a: Seq<u8>, b: Seq<u8>, s: Seq<char>, ok: bool) -> bool {
    if ok { b == a + enc(s) } else { exists|k: int| 0 <= k <= enc(s).len() && b == #[trigger] (a + enc(s).take(k)) }
}
/// a std::fmt::Formatter or a std::io::Write; `out` is the bytes written so far
pub trait VxWrite {
    spec fn out(&self) -> Seq<u8>;
    fn write_str(&mut self, s: &str) -> (r: Result<(), IoError>)
        ensures wrote(old(self).out(), final(self).out(), s@, r is Ok);
    fn write_char(&mut self, c: char) -> (r: Result<(), IoError>)
        ensures wrote(old(self).out(), final(self).out(), seq![c], r is Ok);
    /// (no more bytes)
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).out() == old(self).out();
}
/// Display of std's types
pub trait VxFmt {
    spec fn text(&self) -> Seq<char>;
    fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), IoError>)
        ensures wrote(old(f).out(), final(f).out(), self.text(), r is Ok);
}
impl VxFmt for char {
    open spec fn text(&self) -> Seq<char> { seq![*self] }
    fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), IoError>) { f.write_char(*self) }
}
impl VxFmt for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), IoError>) { f.write_str(self) }
}
pub proof fn lemma_enc_add(a: Seq<char>, b: Seq<char>)
    ensures enc(a + b) == enc(a) + enc(b)
{ reveal(enc); encode_utf8_concat(a, b); }
pub proof fn lemma_wrote_nil(a: Seq<u8>)
    ensures wrote(a, a, Seq::<char>::empty(), true)
{ reveal(wrote); reveal(enc); assert(a + enc(Seq::<char>::empty()) =~= a); }
pub proof fn lemma_wrote_seq(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, s: Seq<char>, t: Seq<char>, ok: bool)
    requires wrote(a, b, s, true), wrote(b, c, t, ok)
    ensures wrote(a, c, s + t, ok)
{
    reveal(wrote);
    lemma_enc_add(s, t);
    if ok { assert((a + enc(s)) + enc(t) =~= a + (enc(s) + enc(t))); }
    else {
        let k = choose|k: int| 0 <= k <= enc(t).len() && c == #[trigger] (b + enc(t).take(k));
        assert(a + enc(s + t).take(enc(s).len() + k) =~= (a + enc(s)) + enc(t).take(k));
    }
}
pub proof fn lemma_wrote_more(a: Seq<u8>, b: Seq<u8>, s: Seq<char>, t: Seq<char>)
    requires wrote(a, b, s, false)
    ensures wrote(a, b, s + t, false)
{
    reveal(wrote);
    lemma_enc_add(s, t);
    let k = choose|k: int| 0 <= k <= enc(s).len() && b == #[trigger] (a + enc(s).take(k));
    assert(a + enc(s + t).take(k) =~= a + enc(s).take(k));
}
/// a text written in two parts
pub proof fn lemma_parts(o: Seq<u8>, s: Seq<char>, x: Seq<char>, full: Seq<char>)
    requires full == s + x
    ensures forall|b: Seq<u8>| #[trigger] wrote(o, b, s, false) ==> wrote(o, b, full, false),
        forall|b: Seq<u8>, c: Seq<u8>, ok: bool| #[trigger] wrote(o, b, s, true) && #[trigger] wrote(b, c, x, ok) ==> wrote(o, c, full, ok),
{
    assert forall|b: Seq<u8>| #[trigger] wrote(o, b, s, false) implies wrote(o, b, full, false) by { lemma_wrote_more(o, b, s, x); }
    assert forall|b: Seq<u8>, c: Seq<u8>, ok: bool| #[trigger] wrote(o, b, s, true) && #[trigger] wrote(b, c, x, ok) implies wrote(o, c, full, ok) by { lemma_wrote_seq(o, b, c, s, x, ok); }
}
/// what a failed write of the start of a text leaves is a start of the text
pub proof fn lemma_rest(o: Seq<u8>, s: Seq<char>, full: Seq<char>)
    requires s.len() <= full.len(), full.take(s.len() as int) =~= s
    ensures forall|b: Seq<u8>| #[trigger] wrote(o, b, s, false) ==> wrote(o, b, full, false),
{
    assert(full =~= s + full.skip(s.len() as int));
    assert forall|b: Seq<u8>| #[trigger] wrote(o, b, s, false) implies wrote(o, b, full, false) by { lemma_wrote_more(o, b, s, full.skip(s.len() as int)); }
}
} // mod out
