//@ include json_spec.vs
pub mod utf {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::spec::*;

// ================================================================ bytes and characters
/// number of bytes a UTF-8 character starting with this byte has (RFC 3629), 0: none starts with it
pub open spec fn uwidth(b: u8) -> int {
    if b < 0x80 { 1 } else if 0xc2 <= b <= 0xdf { 2 } else if 0xe0 <= b <= 0xef { 3 } else if 0xf0 <= b <= 0xf4 { 4 } else { 0 }
}
pub open spec fn enc(c: char) -> Seq<u8> { encode_scalar(c as u32) }
/// whatever follows, this is not UTF-8
#[verifier::opaque]
pub open spec fn hopeless(b: Seq<u8>) -> bool { forall|rest: Seq<u8>| !#[trigger] valid_utf8(b + rest) }

pub proof fn lemma_bits(b: Seq<u8>)
    requires valid_first_scalar(b)
    ensures uwidth(b[0]) == length_of_first_scalar(b), b.len() >= uwidth(b[0])
{
    let x = b[0];
    assert(b.len() >= length_of_first_scalar(b));
    if 0xc0 <= x <= 0xdf {
        let y = b[1];
        assert(0xc0 <= x <= 0xc1 ==> (((x & 0x1f) as u32) << 6) | ((y & 0x3f) as u32) <= 0x7f) by(bit_vector);
    } else if 0xf0 <= x <= 0xf7 {
        let y = b[1]; let z = b[2]; let w = b[3];
        assert(0xf5 <= x <= 0xf7 ==> (((x & 0x7) as u32) << 18) | (((y & 0x3f) as u32) << 12) | (((z & 0x3f) as u32) << 6) | ((w & 0x3f) as u32) > 0x10ffff) by(bit_vector);
    }
}
/// a valid sequence of just the length its first byte asks for is one character
pub proof fn lemma_one(b: Seq<u8>) -> (c: char)
    requires valid_utf8(b), b.len() > 0, b.len() == uwidth(b[0])
    ensures decode_utf8(b) == seq![c], b == enc(c)
{
    lemma_bits(b);
    assert(pop_first_scalar(b) =~= Seq::<u8>::empty());
    let c = decode_first_scalar(b) as char;
    reveal_with_fuel(decode_utf8, 3);
    assert(decode_utf8(b) =~= seq![c]);
    decode_utf8_first_scalar(b);
    assert(take_first_scalar(b) =~= b);
    c
}
pub proof fn lemma_bad(b: Seq<u8>)
    requires b.len() > 0, uwidth(b[0]) == 0 || (b.len() == uwidth(b[0]) && !valid_utf8(b))
    ensures hopeless(b)
{
    reveal(hopeless);
    assert forall|rest: Seq<u8>| !#[trigger] valid_utf8(b + rest) by {
        let t = b + rest;
        if valid_utf8(t) {
            assert(t[0] == b[0]);
            assert(valid_first_scalar(t));
            lemma_bits(t);
            assert(forall|i: int| 0 <= i < b.len() ==> t[i] == b[i]);
            assert(valid_first_scalar(b));
            assert(pop_first_scalar(b) =~= Seq::<u8>::empty());
            assert(valid_utf8(pop_first_scalar(b)));
            assert(valid_utf8(b));
        }
    }
}
pub proof fn lemma_short(b: Seq<u8>)
    requires b.len() > 0, b.len() < uwidth(b[0])
    ensures !valid_utf8(b)
{
    if valid_utf8(b) { lemma_bits(b); }
}
pub proof fn lemma_tail_bad(p: Seq<u8>, x: Seq<u8>)
    requires valid_utf8(p), !valid_utf8(x)
    ensures !valid_utf8(p + x)
{
    let t = p + x;
    assert(t.subrange(0, p.len() as int) =~= p);
    assert(t.subrange(p.len() as int, t.len() as int) =~= x);
    partial_valid_partial_invalid_utf8(t, p.len() as int);
}
pub proof fn lemma_prefix_bad(p: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(p)
    ensures !valid_utf8(b) ==> !valid_utf8(p + b), hopeless(b) ==> hopeless(p + b)
{
    reveal(hopeless);
    if !valid_utf8(b) { lemma_tail_bad(p, b); }
    if hopeless(b) {
        assert forall|rest: Seq<u8>| !#[trigger] valid_utf8((p + b) + rest) by {
            assert(!valid_utf8(b + rest));
            assert((p + b) + rest =~= p + (b + rest));
            lemma_tail_bad(p, b + rest);
        }
    }
}
/// `p` is the end of `g`
pub open spec fn split(g: Seq<u8>, p: Seq<u8>) -> bool {
    p.len() <= g.len() && g == g.take(g.len() - p.len()) + p
}
/// `g` without its end `p`
pub open spec fn head(g: Seq<u8>, p: Seq<u8>) -> Seq<u8> { g.take(g.len() - p.len()) }
pub broadcast proof fn lemma_split_pop(g: Seq<u8>, p: Seq<u8>, q: Seq<u8>)
    requires #[trigger] split(g, p), p.len() > 0, q == p.drop_first()
    ensures #[trigger] split(g, q), head(g, q) == head(g, p).push(p[0])
{
    assert(g =~= g.take(g.len() - q.len()) + q);
    assert(g[g.len() - p.len()] == p[0]);
    assert(head(g, q) =~= head(g, p).push(p[0]));
}
pub broadcast proof fn lemma_split_add(g: Seq<u8>, e: Seq<u8>, g2: Seq<u8>, q: Seq<u8>)
    requires #[trigger] split(g, e), e.len() == 0, g2 == g + q
    ensures #[trigger] split(g2, q), head(g2, q) == head(g, e), head(g, e) == g
{
    assert(head(g, e) =~= g);
    assert(head(g2, q) =~= g);
}
pub broadcast proof fn lemma_split_none(g: Seq<u8>, e: Seq<u8>)
    requires e.len() == 0
    ensures #[trigger] split(g, e), head(g, e) == g
{
    assert(head(g, e) =~= g);
    assert(g =~= g.take(g.len() - e.len()) + e);
}
/// the first `l` bytes of a buffer
pub open spec fn part(s: Seq<u8>, l: int) -> Seq<u8> { s.take(l) }
pub broadcast proof fn lemma_part_push(g: Seq<u8>, s: Seq<u8>, l: int, g2: Seq<u8>, s2: Seq<u8>, l2: int)
    requires #[trigger] split(g, part(s, l)), 0 <= l < s.len(), l2 == l + 1, s2 == s.update(l, s2[l]), g2 == g.push(s2[l])
    ensures #[trigger] split(g2, part(s2, l2)), head(g2, part(s2, l2)) == head(g, part(s, l))
{
    assert(part(s2, l2) =~= part(s, l).push(s2[l]));
    assert(head(g2, part(s2, l2)) =~= head(g, part(s, l)));
    assert(g2 =~= head(g2, part(s2, l2)) + part(s2, l2));
}
pub broadcast proof fn lemma_one_b(b: Seq<u8>)
    requires valid_utf8(b), b.len() > 0, b.len() == uwidth(b[0])
    ensures (#[trigger] decode_utf8(b)).len() == 1, b == enc(decode_utf8(b)[0])
{ lemma_one(b); }
pub broadcast proof fn lemma_bad_b(b: Seq<u8>)
    requires b.len() > 0, uwidth(b[0]) == 0 || (b.len() == uwidth(b[0]) && !valid_utf8(b))
    ensures #[trigger] hopeless(b), !valid_utf8(b)
{ lemma_bad(b); reveal(hopeless); assert(b + Seq::<u8>::empty() =~= b); }
pub broadcast proof fn lemma_short_b(b: Seq<u8>)
    requires b.len() > 0, b.len() < uwidth(b[0])
    ensures !(#[trigger] valid_utf8(b))
{ lemma_short(b); }
pub broadcast proof fn lemma_ascii(g: Seq<u8>, c: char)
    requires (c as u32) < 0x80
    ensures #[trigger] (g + enc(c)) == g.push(c as u8)
{
    let x = c as u32;
    assert(x < 0x80 ==> (x & 0x7f) as u8 == x as u8) by(bit_vector);
    assert(enc(c) =~= seq![c as u8]);
    assert(g + enc(c) =~= g.push(c as u8));
}
pub broadcast proof fn lemma_push_add(g: Seq<u8>, b: u8)
    ensures #[trigger] g.push(b) == g + seq![b]
{ assert(g.push(b) =~= g + seq![b]); }
pub broadcast group group_char { lemma_part_push, lemma_one_b, lemma_bad_b, lemma_short_b, lemma_ascii, lemma_push_add }
// ---------------------------------------------------------------- output bytes
pub broadcast proof fn lemma_send(s: Seq<u8>, i: int, s2: Seq<u8>, i2: int, p: Seq<u8>, p2: Seq<u8>)
    requires 0 <= i < s.len(), i2 == i + 1, p.len() > 0, s2 == s.update(i, p[0]), p2 == p.drop_first()
    ensures #[trigger] (s2.take(i2) + p2) == #[trigger] (s.take(i) + p)
{
    assert(s2.take(i2) + p2 =~= s.take(i) + p);
}
#[verifier::opaque]
pub open spec fn utf8_ok(b: Seq<u8>) -> bool { valid_utf8(b) }
#[verifier::opaque]
pub open spec fn dec(b: Seq<u8>) -> Seq<char> { decode_utf8(b) }
/// what the minifier gives for these characters, in UTF-8
#[verifier::opaque]
pub open spec fn outb(cs: Seq<char>) -> Seq<u8> { encode_utf8(jmin(cs)) }
#[verifier::opaque]
pub open spec fn ctxb(cs: Seq<char>) -> JCtx { jctx(JCtx::Out, cs) }
/// all the output is `d`, delivered by previous reads, then `a`, put in the buffer, then `p`
pub open spec fn outp(all: Seq<u8>, d: Seq<u8>, a: Seq<u8>, p: Seq<u8>) -> bool { all == d + (a + p) }
pub broadcast proof fn lemma_out_start(all: Seq<u8>, a: Seq<u8>, p: Seq<u8>)
    requires split(all, p), a.len() == 0
    ensures #[trigger] outp(all, head(all, p), a, p)
{ assert(a + p =~= p); }
pub broadcast proof fn lemma_out_move(all: Seq<u8>, a: Seq<u8>, p: Seq<u8>, a2: Seq<u8>, p2: Seq<u8>)
    requires #[trigger] split(all, p), a.len() == 0, #[trigger] (a2 + p2) == #[trigger] (a + p)
    ensures #[trigger] split(all, p2), head(all, p2) == head(all, p) + a2
{
    assert(a + p =~= p);
    assert(head(all, p2) =~= head(all, p) + a2);
    assert(all =~= head(all, p2) + p2);
}
pub broadcast proof fn lemma_out_end(all: Seq<u8>, d: Seq<u8>, a: Seq<u8>, p: Seq<u8>)
    requires #[trigger] outp(all, d, a, p)
    ensures split(all, p), head(all, p) == d + a
{
    assert(head(all, p) =~= d + a);
    assert(all =~= (d + a) + p);
}
pub broadcast proof fn lemma_out_new(all: Seq<u8>, d: Seq<u8>, a: Seq<u8>, p: Seq<u8>, all2: Seq<u8>, a2: Seq<u8>, p2: Seq<u8>, n: Seq<u8>)
    requires #[trigger] outp(all, d, a, p), p.len() == 0, all2 == all + n, a2 + p2 == #[trigger] (a + n)
    ensures #[trigger] outp(all2, d, a2, p2)
{
    assert(a + p =~= a);
    assert(all + n =~= d + (a + n));
}
pub broadcast proof fn lemma_out_new2(all: Seq<u8>, d: Seq<u8>, a: Seq<u8>, p: Seq<u8>, all2: Seq<u8>, a2: Seq<u8>, p2: Seq<u8>, n: Seq<u8>)
    requires #[trigger] outp(all, d, a, p), p.len() == 0, all2 == all + n, #[trigger] (a2 + p2) == #[trigger] (a + n)
    ensures #[trigger] split(all2, p2), head(all2, p2) == d + a2
{ lemma_out_new(all, d, a, p, all2, a2, p2, n); lemma_out_end(all2, d, a2, p2); }
/// one more character handled
pub broadcast proof fn lemma_step(cs: Seq<char>)
    requires cs.len() > 0
    ensures
        ctxb(cs) == jstep(#[trigger] ctxb(cs.drop_last()), cs.last()),
        outb(cs) == (if jkeep(ctxb(cs.drop_last()), cs.last()) { outb(cs.drop_last()) + enc(cs.last()) } else { outb(cs.drop_last()) }),
{
    reveal(ctxb); reveal(outb);
    assert(cs =~= cs.drop_last().push(cs.last()));
    lemma_jmin_push(cs.drop_last(), cs.last());
    encode_utf8_push(jmin(cs.drop_last()), cs.last());
}
pub broadcast proof fn lemma_decode_push(p: Seq<u8>, c: char)
    requires utf8_ok(p)
    ensures utf8_ok(#[trigger] (p + enc(c))), dec(p + enc(c)) == dec(p).push(c)
{ reveal(utf8_ok); reveal(dec); lemma_push(p, c); }
pub broadcast proof fn lemma_drop_push(s: Seq<char>, c: char)
    ensures #[trigger] s.push(c).drop_last() == s
{ assert(s.push(c).drop_last() =~= s); }
pub broadcast proof fn lemma_none1(p: Seq<u8>)
    requires p.len() == 0
    ensures #[trigger] utf8_ok(p)
{ reveal(utf8_ok); }
pub broadcast proof fn lemma_none2(p: Seq<u8>)
    requires p.len() == 0
    ensures (#[trigger] dec(p)).len() == 0
{ reveal(dec); }
pub broadcast proof fn lemma_none3(s: Seq<char>)
    requires s.len() == 0
    ensures #[trigger] ctxb(s) == JCtx::Out
{ reveal(ctxb); }
pub broadcast proof fn lemma_none4(s: Seq<char>)
    requires s.len() == 0
    ensures (#[trigger] outb(s)).len() == 0
{ reveal(outb); }
pub broadcast proof fn lemma_bad_tail(p: Seq<u8>, b: Seq<u8>)
    requires utf8_ok(p)
    ensures !valid_utf8(b) ==> !valid_utf8(#[trigger] (p + b)), hopeless(b) ==> hopeless(p + b), p.is_prefix_of(p + b)
{ reveal(utf8_ok); lemma_prefix_bad(p, b); assert((p + b).take(p.len() as int) =~= p); }
pub broadcast proof fn lemma_out_prefix(cs: Seq<char>)
    requires cs.len() > 0
    ensures (#[trigger] outb(cs.drop_last())).is_prefix_of(outb(cs))
{ lemma_step(cs); }
pub broadcast group group_next { lemma_decode_push, lemma_bad_tail }
pub broadcast group group_read { lemma_out_start, lemma_out_move, lemma_out_end, lemma_out_new, lemma_out_new2, lemma_step, lemma_drop_push,
    lemma_none1, lemma_none2, lemma_none3, lemma_none4, lemma_out_prefix }
pub broadcast group group_utf { lemma_split_pop, lemma_split_add, lemma_split_none }
/// one more character
pub proof fn lemma_push(p: Seq<u8>, c: char)
    requires valid_utf8(p)
    ensures valid_utf8(p + enc(c)), decode_utf8(p + enc(c)) == decode_utf8(p).push(c)
{
    decode_utf8_encode_utf8(p);
    encode_utf8_push(decode_utf8(p), c);
    encode_utf8_valid_utf8(decode_utf8(p).push(c));
    encode_utf8_decode_utf8(decode_utf8(p).push(c));
}
pub proof fn lemma_jmin_push(s: Seq<char>, c: char)
    ensures jctx(JCtx::Out, s.push(c)) == jstep(jctx(JCtx::Out, s), c),
        jmin(s.push(c)) == if jkeep(jctx(JCtx::Out, s), c) { jmin(s).push(c) } else { jmin(s) }
{
    let x = jctx(JCtx::Out, s);
    assert(s.push(c) =~= s + seq![c]);
    lemma_jfilter_append(JCtx::Out, s, seq![c]);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(jctx, 3);
    reveal_with_fuel(jfilter, 3);
    if jkeep(x, c) {
        assert(jmin(s) + jfilter(x, seq![c]) =~= jmin(s).push(c));
    } else {
        assert(jmin(s) + jfilter(x, seq![c]) =~= jmin(s));
    }
}
} // mod utf

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind {
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
    AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, Interrupted, Unsupported, UnexpectedEof, OutOfMemory,
    ResourceBusy, FileTooLarge, Other, IsADirectory, NotADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, InvalidFilename, HostUnreachable,
    NetworkUnreachable, NetworkDown, NotSeekable, QuotaExceeded, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, ArgumentListTooLong,
}

pub mod code {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::spec::*;
use super::utf::*;
use super::ErrorKind;
broadcast use {group_base, group_json, group_utf};

//@ include json_min.vs

// ================================================================ trusted: std
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });

#[verifier::external_body]
pub struct Error { e: u8 }
impl Error {
    pub uninterp spec fn sk(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.sk() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(k: ErrorKind) -> (r: Error) ensures r.sk() == k { unimplemented!() }
}
/// a byte source: `got` is every byte it has delivered, `errs` every error it has returned but
/// Interrupted, `eof` whether it has reported its end
pub trait VxRead {
    spec fn got(&self) -> Seq<u8>;
    spec fn errs(&self) -> Seq<Error>;
    spec fn eof(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>)
        ensures final(buf)@.len() == old(buf)@.len(),
            old(self).eof() ==> final(self).eof(),
            match r {
                Ok(n) => n <= final(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int)
                    && final(self).errs() == old(self).errs()
                    && (n == 0 && final(buf)@.len() > 0 ==> final(self).eof()),
                Err(e) => final(self).got() == old(self).got()
                    && final(self).errs() == (if e.sk() == ErrorKind::Interrupted { old(self).errs() } else { old(self).errs().push(e) }),
            };
}
/// std::vec::IntoIter<u8>
#[verifier::external_body]
pub struct ByteIter { it: std::vec::IntoIter<u8> }
impl View for ByteIter { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl ByteIter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { self.it.next() }
}
#[verifier::external_body]
pub fn vx_char_bytes(c: char) -> (r: ByteIter) ensures r@ == enc(c) { unimplemented!() }
pub struct Utf8Error { pub at: usize }
/// std::str::from_utf8
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<Chars, Utf8Error>)
    ensures r is Ok == valid_utf8(b@), r is Ok ==> r->Ok_0@ == decode_utf8(b@)
{ unimplemented!() }
/// &b[..n]
#[verifier::external_body]
pub fn vx_prefix<const N: usize>(b: &[u8; N], n: usize) -> (r: &[u8])
    requires n <= N
    ensures r@ == b@.take(n as int)
{ &b[..n] }
#[verifier::external_body]
pub struct Chars { it: u8 }
impl View for Chars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Chars {
    pub fn chars(self) -> (r: Chars) ensures r@ == self@ { self }
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<char>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@[0])
    { unimplemented!() }
}
//@ rw from_utf8 ( & self . buf [ .. $$w ] ) =>> vx_from_utf8(vx_prefix(&self.buf, $$w))
//@ rw R : Read =>> R: VxRead
//@ rw IntoIter < u8 > =>> ByteIter

// ================================================================ code: internal_buffer.rs
//@ rw static UTF8_CHAR_WIDTH : [ u8 ; 256 ] = $x ; =>> exec static UTF8_CHAR_WIDTH: [u8; 256] ensures forall|i: u8| #[trigger] UTF8_CHAR_WIDTH@[i as int] == uwidth(i) { $x }
//@ type src/json/read/internal_buffer.rs ARRAY_DEFAULT
//@ type src/json/read/internal_buffer.rs Buffer

impl Buffer {
    pub open spec fn wf(self) -> bool {
        self.buffer@.len() > 0 && (self.pending_some() ==> self.data_size <= self.buffer@.len())
    }
    pub open spec fn pending_some(self) -> bool { self.read_pos < self.data_size }
    pub open spec fn pending(self) -> Seq<u8> {
        if self.pending_some() { self.buffer@.subrange(self.read_pos as int, self.data_size as int) } else { Seq::empty() }
    }
    pub open spec fn ended(self) -> bool { self.data_size == 0 }
}

//@ fn src/json/read/internal_buffer.rs impl=Buffer new
//@ spec
    requires size > 0,
    ensures r.wf(), r.pending() == Seq::<u8>::empty(), !r.ended(),
//@ end

//@ fn src/json/read/internal_buffer.rs impl=Buffer as_mut
//@ rw self . buffer . as_mut ( ) =>> self . buffer . as_mut_slice ( )
//@ spec
    requires old(self).wf(),
    ensures r@ == old(self).buffer@, final(self).buffer@ == final(r)@,
        final(self).read_pos == old(self).read_pos, final(self).data_size == old(self).data_size,
//@ end

//@ fn src/json/read/internal_buffer.rs impl=Buffer update_metadata
//@ spec
    requires old(self).buffer@.len() > 0, size <= old(self).buffer@.len(),
    ensures final(self).wf(), final(self).buffer@ == old(self).buffer@,
        final(self).pending() =~= old(self).buffer@.take(size as int),
        final(self).ended() == (size == 0),
//@ end

//@ fn src/json/read/internal_buffer.rs impl=Buffer next
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ended() == old(self).ended(),
        r is None ==> old(self).pending().len() == 0 && final(self).pending().len() == 0,
        r is Some ==> old(self).pending().len() > 0 && r->0 == old(self).pending()[0]
            && final(self).pending() =~= old(self).pending().drop_first(),
//@ end

//@ fn src/json/read/internal_buffer.rs impl=Buffer cont
//@ spec
    ensures r == !self.ended(),
//@ end

// ================================================================ code: internal_reader.rs
//@ type src/json/read/internal_reader.rs InternalReader

impl<R: VxRead> InternalReader<R> {
    /// every byte the source delivered and this reader passed on
    pub open spec fn handed(self) -> Seq<u8> {
        head(self.read.got(), self.buffer.pending())
    }
    pub open spec fn wf(self) -> bool {
        &&& self.buffer.wf() && self.buffer_size > 0
        &&& split(self.read.got(), self.buffer.pending())
        &&& self.buffer.ended() ==> self.read.eof()
    }
    pub open spec fn ended(self) -> bool { self.buffer.ended() }
}

//@ fn src/json/read/internal_reader.rs impl=InternalReader new
//@ spec
    requires buffer_size > 0, read.got().len() == 0,
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.handed() == Seq::<u8>::empty(), r->Ok_0.read.errs() == read.errs(), !r->Ok_0.ended(),
//@ end

//@ fn src/json/read/internal_reader.rs impl=InternalReader read_data
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(buffer).wf(), old(buffer).pending().len() == 0,
    ensures final(buffer).wf(),
        old(read).eof() ==> final(read).eof(),
        final(read).got() == old(read).got() + final(buffer).pending(),
        r is Ok ==> final(read).errs() == old(read).errs() && (final(buffer).ended() ==> final(read).eof()),
        r is Err ==> final(read).errs() == old(read).errs().push(r->Err_0) && final(buffer).ended() == old(buffer).ended() && final(buffer).pending().len() == 0,
//@ loop 1
    invariant buffer.wf(), buffer.pending().len() == 0, buffer.ended() == old(buffer).ended(),
        read.got() == old(read).got(), read.errs() == old(read).errs(), old(read).eof() ==> read.eof(),
    ensures false,
//@ end

//@ fn src/json/read/internal_reader.rs impl=InternalReader trait=Iterator next
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).ended() ==> final(self).ended(),
        match r {
            None => final(self).handed() == old(self).handed() && final(self).read.errs() == old(self).read.errs()
                && final(self).ended() && final(self).handed() == final(self).read.got(),
            Some(Ok(b)) => final(self).handed() == old(self).handed().push(b) && final(self).read.errs() == old(self).read.errs(),
            Some(Err(e)) => final(self).handed() == old(self).handed() && final(self).read.errs() == old(self).read.errs().push(e),
        },
//@ loop 1
    invariant self.wf(), self.handed() == old(self).handed(), self.read.errs() == old(self).read.errs(),
        old(self).ended() ==> self.ended(),
    ensures false,
//@ end

} // mod code
pub mod code2 {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::utf::*;
use super::code::*;
broadcast use {group_base, group_utf, group_char};

// ================================================================ code: byte_to_char.rs
//@ type src/json/read/byte_to_char.rs CharsError
//@ type src/json/read/byte_to_char.rs ByteToChar
//@ type src/json/read/byte_to_char.rs UTF8_CHAR_WIDTH

//@ fn src/json/read/byte_to_char.rs utf8_char_width
//@ spec
    ensures r == uwidth(b),
//@ end

/// `p`, well-formed, is followed in the source by bytes no UTF-8 text has there
pub open spec fn source_bad<R: VxRead>(p: Seq<u8>, x: ByteToChar<R>) -> bool {
    exists|bad: Seq<u8>| x.iter.handed() == #[trigger] (p + bad) && !valid_utf8(bad)
        && (hopeless(bad) || (x.ended() && x.iter.handed() == x.iter.read.got()))
}
impl<R: VxRead> ByteToChar<R> {
    /// the bytes of the character being read
    pub open spec fn partial(self) -> Seq<u8> { part(self.buf@, self.len as int) }
    /// every byte the source delivered, up to the character being read
    pub open spec fn complete(self) -> Seq<u8> { head(self.iter.handed(), self.partial()) }
    pub open spec fn wf(self) -> bool {
        &&& self.iter.wf()
        &&& self.len == 0 || self.len < uwidth(self.buf@[0])
        &&& split(self.iter.handed(), self.partial())
    }
    pub open spec fn errs(self) -> Seq<Error> { self.iter.read.errs() }
    pub open spec fn ended(self) -> bool { self.iter.ended() }
}

//@ fn src/json/read/byte_to_char.rs impl=ByteToChar new
//@ spec
    requires buffer_size > 0, read.got().len() == 0,
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.complete() == Seq::<u8>::empty(), r->Ok_0.errs() == read.errs(), !r->Ok_0.ended(),
//@ end

//@ fn src/json/read/byte_to_char.rs impl=ByteToChar get_next
//@ spec
    requires old(self).iter.wf(),
    ensures final(self).iter.wf(), final(self).buf == old(self).buf, final(self).len == old(self).len,
        old(self).ended() ==> final(self).ended(),
        match r {
            Ok(None) => final(self).iter.handed() == old(self).iter.handed() && final(self).errs() == old(self).errs()
                && final(self).ended() && final(self).iter.handed() == final(self).iter.read.got(),
            Ok(Some(b)) => final(self).iter.handed() == old(self).iter.handed().push(b) && final(self).errs() == old(self).errs(),
            Err(CharsError::Other(e)) => final(self).iter.handed() == old(self).iter.handed() && final(self).errs() == old(self).errs().push(e),
            Err(CharsError::NotUtf8) => false,
        },
//@ end

//@ fn src/json/read/byte_to_char.rs impl=ByteToChar trait=Iterator next
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).ended() ==> final(self).ended(),
        match r {
            None => final(self).complete() == old(self).complete() && final(self).errs() == old(self).errs()
                && final(self).ended() && final(self).complete() == final(self).iter.read.got(),
            Some(Ok(c)) => final(self).complete() == old(self).complete() + enc(c) && final(self).errs() == old(self).errs(),
            Some(Err(CharsError::Other(e))) => final(self).complete() == old(self).complete() && final(self).errs() == old(self).errs().push(e),
            Some(Err(CharsError::NotUtf8)) => final(self).errs() == old(self).errs() && source_bad(old(self).complete(), *final(self)),
        },
//@ loop 1
    invariant self.iter.wf(), split(self.iter.handed(), self.partial()), width == uwidth(self.buf@[0]), 1 < width <= 4,
        0 < self.len <= width,
        self.complete() == old(self).complete(), self.errs() == old(self).errs(),
        old(self).ended() ==> self.ended(),
    ensures self.len == width,
    decreases width - self.len
//@ end

} // mod code2
pub mod code3 {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::spec::*;
use super::utf::*;
use super::code::*;
use super::code2::*;
use super::ErrorKind;
broadcast use {group_base, group_utf, group_next, group_read, lemma_send};

// ================================================================ code: json_read.rs
//@ rw FnMut $x -> bool =>> JsonPred
//@ rw ( self . predicate ) ( $$a , $$b , $$c ) =>> self . predicate . call ( $$a , $$b , $$c )
//@ rw self . get_next ( ) ? =>> (match self.get_next() { Ok(v) => v, Err(e) => return Err(chars_error_into(e)) })
//@ rw err . into ( ) =>> chars_error_into(err)
//@ rw $x . to_string ( ) . into_bytes ( ) . into_iter ( ) =>> vx_char_bytes ( $x )
//@ type src/json/read/json_read.rs JsonRead

//@ fn src/json/read/json_read.rs impl=Error trait=From from as chars_error_into free
//@ rw Self =>> Error
//@ spec
    ensures match err { CharsError::NotUtf8 => r.sk() == ErrorKind::InvalidData, CharsError::Other(e) => r == e },
//@ end

#[verifier::opaque]
/// `b` bytes, all from the source `x`, are not the beginning of UTF-8 text, or are all there is and not UTF-8
pub open spec fn not_utf8<R: VxRead>(x: ByteToChar<R>) -> bool {
    let b = x.iter.handed();
    hopeless(b) || (!valid_utf8(b) && x.ended() && b == x.iter.read.got())
}

impl<P, R: VxRead> JsonRead<P, R> {
    pub open spec fn pend(self) -> Seq<u8> { match self.item_iter { Some(i) => i@, None => Seq::empty() } }
    pub open spec fn complete(self) -> Seq<u8> { match self.iter { Some(i) => i.complete(), None => Seq::empty() } }
    pub open spec fn errs(self) -> Seq<Error> { match self.iter { Some(i) => i.errs(), None => self.read->0.errs() } }
    /// the characters of the source read so far
    pub open spec fn cs(self) -> Seq<char> { dec(self.complete()) }
    /// those the minifier has handled: all but the lookahead
    pub open spec fn handled(self) -> Seq<char> { if self.item1 is Some { self.cs().drop_last() } else { self.cs() } }
    pub open spec fn all(self) -> Seq<u8> { outb(self.handled()) }
    /// every byte delivered since the beginning
    pub open spec fn delivered(self) -> Seq<u8> { head(self.all(), self.pend()) }
    /// nothing left to deliver
    pub open spec fn done(self) -> bool {
        self.iter is Some && self.initialized && self.item1 is None && self.pend().len() == 0
            && self.iter->0.ended() && self.complete() == self.iter->0.iter.read.got()
    }
    pub open spec fn wf(self) -> bool {
        &&& self.minifier.wf()
        &&& self.iter is Some ==> self.iter->0.wf() && self.read is None
        &&& self.iter is None ==> !self.initialized && self.read is Some && self.read->0.got().len() == 0
        &&& !self.initialized ==> self.item1 is None
    }
    pub open spec fn good(self) -> bool {
        &&& self.wf()
        &&& utf8_ok(self.complete())
        &&& self.minifier.ctx() == ctxb(self.handled())
        &&& self.item1 is Some ==> self.cs().len() > 0 && self.cs().last() == self.item1->0
        &&& !self.initialized ==> self.complete().len() == 0 && self.pend().len() == 0
        &&& self.initialized && self.item1 is None ==> self.iter->0.ended() && self.complete() == self.iter->0.iter.read.got()
        &&& split(self.all(), self.pend())
    }
    /// an InvalidData error is to be reported and the source is not UTF-8
    pub open spec fn broken(self) -> bool {
        self.error is Some && self.error->0.sk() == ErrorKind::InvalidData && self.iter is Some && not_utf8(self.iter->0)
    }
}
/// `d` is the beginning of what minifying a well-formed beginning of the source gives
pub open spec fn prefix_out<R: VxRead>(d: Seq<u8>, x: ByteToChar<R>) -> bool {
    exists|p: Seq<u8>| #[trigger] utf8_ok(p) && p.is_prefix_of(x.iter.handed()) && d.is_prefix_of(outb(dec(p)))
}

//@ fn src/json/read/json_read.rs impl=JsonRead new
//@ spec
    requires read.got().len() == 0,
    ensures r.good(), r.delivered() == Seq::<u8>::empty(), r.error is None, r.errs() == read.errs(),
//@ end

//@ fn src/json/read/json_read.rs impl=JsonRead get_next
//@ start
    proof { reveal(not_utf8); }
//@ spec
    requires old(self).iter is Some, old(self).iter->0.wf(),
    ensures final(self).iter is Some, final(self).iter->0.wf(),
        final(self).minifier == old(self).minifier, final(self).predicate == old(self).predicate,
        final(self).initialized == old(self).initialized, final(self).item_iter == old(self).item_iter,
        final(self).item1 == old(self).item1, final(self).error == old(self).error, final(self).read == old(self).read,
        old(self).iter->0.ended() ==> final(self).iter->0.ended(),
        match r {
            Ok(None) => final(self).complete() == old(self).complete() && final(self).errs() == old(self).errs()
                && final(self).iter->0.ended() && final(self).complete() == final(self).iter->0.iter.read.got(),
            Ok(Some(c)) => final(self).errs() == old(self).errs()
                && (utf8_ok(old(self).complete()) ==> utf8_ok(final(self).complete()) && final(self).cs() == old(self).cs().push(c)),
            Err(CharsError::Other(e)) => final(self).complete() == old(self).complete() && final(self).errs() == old(self).errs().push(e),
            Err(CharsError::NotUtf8) => final(self).errs() == old(self).errs()
                && (utf8_ok(old(self).complete()) ==> not_utf8(final(self).iter->0) && old(self).complete().is_prefix_of(final(self).iter->0.iter.handed())),
        },
//@ end

//@ fn src/json/read/json_read.rs impl=JsonRead add_char_to_buffer
//@ spec
    requires *old(buf_pos) <= old(buf)@.len(),
    ensures final(self).minifier == old(self).minifier, final(self).predicate == old(self).predicate,
        final(self).initialized == old(self).initialized, final(self).iter == old(self).iter,
        final(self).item1 == old(self).item1, final(self).error == old(self).error, final(self).read == old(self).read,
        final(buf)@.len() == old(buf)@.len(), *final(buf_pos) <= final(buf)@.len(), *old(buf_pos) <= *final(buf_pos),
        final(buf)@.take(*final(buf_pos) as int) + final(self).pend() == old(buf)@.take(*old(buf_pos) as int) + old(self).pend(),
        final(self).pend().len() == 0 || *final(buf_pos) == final(buf)@.len(),
        old(self).pend().len() > 0 && *old(buf_pos) < old(buf)@.len() ==> *final(buf_pos) > *old(buf_pos),
//@ loop 1
    invariant buf@.len() == old(buf)@.len(), *old(buf_pos) <= *buf_pos <= buf@.len(),
        buf@.take(*buf_pos as int) + iter@ == old(buf)@.take(*old(buf_pos) as int) + old(self).pend(),
    ensures iter@.len() == 0 || *buf_pos == buf@.len(),
    decreases buf@.len() - *buf_pos
//@ end

} // mod code3
pub mod code4 {
use vstd::prelude::*;
use vstd::utf8::*;
use super::base::*;
use super::spec::*;
use super::utf::*;
use super::code::*;
use super::code2::*;
use super::code3::*;
use super::ErrorKind;
broadcast use group_read;

//@ fn src/json/read/json_read.rs impl=JsonRead trait=Read read
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(buf)@.len() == old(buf)@.len(),
        // an empty buffer: nothing happens
        old(buf)@.len() == 0 ==> r == Ok::<usize, Error>(0) && *final(self) == *old(self),
        // an error put aside is reported, once
        old(buf)@.len() > 0 && old(self).error is Some ==> r is Err && r->Err_0 == old(self).error->0
            && *final(self) == (JsonRead { error: None, ..*old(self) }),
        // otherwise
        old(buf)@.len() > 0 && old(self).error is None && old(self).good() ==> match r {
            Ok(n) => n <= final(buf)@.len()
                && (final(self).broken() ==> n > 0 && prefix_out(old(self).delivered() + final(buf)@.take(n as int), final(self).iter->0))
                && (!final(self).broken() ==> final(self).good() && final(self).delivered() == old(self).delivered() + final(buf)@.take(n as int))
                && (!final(self).broken() && final(self).error is None ==> final(self).errs() == old(self).errs())
                && (!final(self).broken() && final(self).error is Some ==> n > 0 && final(self).errs() == old(self).errs().push(final(self).error->0))
                && (n == 0 ==> final(self).done() && final(self).error is None),
            Err(e) => final(self).error is None && (
                (final(self).good() && final(self).delivered() == old(self).delivered() && final(self).errs() == old(self).errs().push(e))
                || (e.sk() == ErrorKind::InvalidData && final(self).iter is Some && not_utf8(final(self).iter->0))),
        },
//@ loop 1
    invariant_except_break buf_pos < buf@.len(), self.pend().len() == 0,
    invariant self.wf(), self.initialized, self.error is None, old(self).error is None, buf@.len() == old(buf)@.len(),
        old(self).good() ==> outp(self.all(), old(self).delivered(), buf@.take(buf_pos as int), self.pend()),
        old(self).good() ==> self.good() && self.errs() == old(self).errs(),
    ensures self.wf(), self.error is None, buf_pos <= buf@.len(),
        old(self).good() ==> outp(self.all(), old(self).delivered(), buf@.take(buf_pos as int), self.pend()),
        old(self).good() ==> self.good() && self.errs() == old(self).errs()
            && (buf_pos == 0 ==> self.done()),
//@ end

//@ fn src/json/mod.rs minify_from_read
//@ rw keep_element =>> JsonMethod { }
//@ spec
    requires json.got().len() == 0,
    ensures r.good(), r.delivered() == Seq::<u8>::empty(), r.error is None, r.errs() == json.errs(),
//@ end

// ================================================================ the property, over the contracts
/// J02: when a read gives 0 bytes, everything delivered is the minified text of the source
pub proof fn lemma_done<P, R: VxRead>(x: JsonRead<P, R>)
    requires x.good(), x.done()
    ensures valid_utf8(x.iter->0.iter.read.got()),
        x.delivered() == encode_utf8(jmin(decode_utf8(x.iter->0.iter.read.got())))
{
    reveal(utf8_ok); reveal(dec); reveal(outb);
    assert(head(x.all(), x.pend()) =~= x.all());
}
/// J02 for a caller reading to the end, with any non-empty buffer, and trying again after errors
#[verifier::exec_allows_no_decreases_clause]
pub fn prop_read_all<R: VxRead>(json: R, buf: &mut [u8], out: &mut Vec<u8>) -> (r: Result<JsonRead<JsonMethod, R>, Error>)
    requires json.got().len() == 0, old(buf)@.len() > 0, old(out)@.len() == 0
    ensures r is Ok ==> ({
        let got = r->Ok_0.iter->0.iter.read.got();
        &&& valid_utf8(got)
        &&& final(out)@ == encode_utf8(jmin(decode_utf8(got)))
    })
{
    let mut x = minify_from_read(json);
    assert(x.delivered() =~= out@);
    loop
        invariant x.wf(), x.error is None ==> x.good() && out@ == x.delivered(), x.error is Some && !x.broken() ==> x.good() && out@ == x.delivered(),
            buf@.len() == old(buf)@.len(), old(buf)@.len() > 0,
    {
        match x.read(buf) {
            Ok(n) => {
                if n == 0 {
                    proof { lemma_done(x); }
                    return Ok(x);
                }
                let ghost o = out@;
                let mut i: usize = 0;
                while i < n
                    invariant 0 <= i <= n <= buf@.len(), out@ == o + buf@.take(i as int)
                    decreases n - i
                {
                    let ghost o2 = out@;
                    out.push(buf[i]);
                    i += 1;
                    assert(out@ =~= o + buf@.take(i as int));
                }
            }
            Err(e) => {
                if e.kind() == ErrorKind::InvalidData { return Err(e); }
            }
        }
    }
}

} // mod code4
fn main() {}
}
