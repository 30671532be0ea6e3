//@ include prelude.vs
//@ include text.vs
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind {
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
    AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, Interrupted, Unsupported, UnexpectedEof, OutOfMemory,
    ResourceBusy, FileTooLarge, Other, IsADirectory, NotADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, InvalidFilename, HostUnreachable,
    NetworkUnreachable, NetworkDown, NotSeekable, QuotaExceeded, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, ArgumentListTooLong,
}
pub mod world {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
pub use super::ErrorKind;

// ================================================================ trusted: paths
pub struct IoError { pub id: int }
impl IoError {
    pub uninterp spec fn sk(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.sk() { unimplemented!() }
}
/// a path, a part of one
pub struct P { pub id: int }
pub struct O { pub id: int }
pub uninterp spec fn join(a: P, b: P) -> P;
pub uninterp spec fn with_ext(a: P, e: Seq<char>) -> P;
pub uninterp spec fn parent_of(a: P) -> Option<P>;
pub uninterp spec fn ext_of(a: P) -> Option<O>;
pub uninterp spec fn name_of(a: P) -> Option<O>;
pub uninterp spec fn as_path(o: O) -> P;
pub uninterp spec fn lower_os(o: O) -> O;
pub uninterp spec fn utf8_of(o: O) -> Option<Seq<char>>;

#[verifier::external_body]
pub struct OsStr { x: std::ffi::OsString }
impl View for OsStr { type V = O; uninterp spec fn view(&self) -> O; }
pub type OsString = OsStr;
impl OsStr {
    #[verifier::external_body]
    pub fn to_ascii_lowercase(&self) -> (r: OsString) ensures r@ == lower_os(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some == utf8_of(self@) is Some, r is Some ==> r->0@ == utf8_of(self@)->0 { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { x: std::path::PathBuf }
impl View for PathBuf { type V = P; uninterp spec fn view(&self) -> P; }
pub type Path = PathBuf;
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>) ensures r is Some == ext_of(self@) is Some, r is Some ==> r->0@ == ext_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some == name_of(self@) is Some, r is Some ==> r->0@ == name_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures r is Some == parent_of(self@) is Some, r is Some ==> r->0@ == parent_of(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: VxPath>(&mut self, p: T) ensures final(self)@ == join(old(self)@, p.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: VxPath>(&self, p: T) -> (r: PathBuf) ensures r@ == join(self@, p.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, e: String) -> (r: bool) ensures final(self)@ == with_ext(old(self)@, e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: String) -> (r: PathBuf) ensures r@ == with_ext(self@, e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, fs: &VxFs) -> (r: bool) ensures r == fs.dir(self@) { unimplemented!() }
}
/// AsRef<Path>
pub trait VxPath { spec fn path(&self) -> P; }
impl<'a> VxPath for &'a PathBuf { open spec fn path(&self) -> P { (*self)@ } }
impl VxPath for PathBuf { open spec fn path(&self) -> P { self@ } }
impl<'a> VxPath for &'a OsStr { open spec fn path(&self) -> P { as_path((*self)@) } }

// ================================================================ trusted: the file system
/// the part of the world that the command changes
#[verifier::external_body]
pub struct VxFs { x: u8 }
impl VxFs {
    /// what the file that this path leads to holds; None where it leads to no file
    pub uninterp spec fn bytes(&self, p: P) -> Option<Seq<u8>>;
    /// it leads to a directory
    pub uninterp spec fn dir(&self, p: P) -> bool;
    /// an operation has failed
    pub uninterp spec fn fault(&self) -> bool;
}
/// the files that are there in a are as they were
pub open spec fn kept(a: VxFs, b: VxFs) -> bool {
    forall|p: P| (#[trigger] a.bytes(p)) is Some ==> b.bytes(p) == a.bytes(p)
}
/// nothing but the fault has changed
pub open spec fn still(a: VxFs, b: VxFs) -> bool {
    (forall|p: P| #[trigger] b.bytes(p) == a.bytes(p)) && (forall|p: P| #[trigger] b.dir(p) == a.dir(p)) && (a.fault() ==> b.fault())
}
/// text, as the file holds it
pub open spec fn holds(fs: VxFs, p: P, t: Seq<char>) -> bool { fs.bytes(p) == Some(enc(t)) }

#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn path(&self) -> P;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn appends(&self) -> bool;
    #[verifier::external_body]
    pub fn open<T: VxPath>(fs: &mut VxFs, p: T) -> (r: Result<File, IoError>)
        ensures still(*old(fs), *final(fs)),
            match r { Ok(f) => f.path() == p.path() && f.pos() == 0 && final(fs).fault() == old(fs).fault(), Err(_) => final(fs).fault() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<T: VxPath>(fs: &mut VxFs, p: T) -> (r: Result<File, IoError>)
        ensures match r {
                Ok(f) => opened(*old(fs), *final(fs), f, p.path(), VxOpen { truncate: true, create: true, write: true, append: false }),
                Err(_) => kept(*old(fs), *final(fs)) && final(fs).fault(),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, fs: &mut VxFs, data: &mut String) -> (r: Result<usize, IoError>)
        requires old(self).pos() == 0,
        ensures still(*old(fs), *final(fs)),
            match r {
                Ok(_) => final(fs).fault() == old(fs).fault() && exists|t: Seq<char>| holds(*old(fs), old(self).path(), t) && final(data)@ == #[trigger] (old(data)@ + t),
                Err(_) => final(fs).fault(),
            },
    { unimplemented!() }
    /// write!(file, "{t}"), file.write_all(t.as_bytes())
    #[verifier::external_body]
    pub fn write_text<S: VxStr>(&mut self, fs: &mut VxFs, t: S) -> (r: Result<(), IoError>)
        ensures match r {
            Ok(_) => final(fs).fault() == old(fs).fault() && final(fs).bytes(old(self).path()) == Some(put(old(fs).bytes(old(self).path())->0, enc(t.str()), if old(self).appends() { old(fs).bytes(old(self).path())->0.len() as int } else { old(self).pos() }))
                && final(self).path() == old(self).path() && final(self).pos() == old(self).pos() + enc(t.str()).len() && final(self).appends() == old(self).appends(),
            Err(_) => final(fs).fault(),
        },
    { unimplemented!() }
}
/// writing x at this place into a file that holds b
pub open spec fn put(b: Seq<u8>, x: Seq<u8>, at: int) -> Seq<u8> {
    b.take(at) + x + (if at + x.len() < b.len() { b.skip(at + x.len()) } else { Seq::empty() })
}
/// OpenOptions
pub struct VxOpen { pub truncate: bool, pub create: bool, pub write: bool, pub append: bool }
pub open spec fn opened(a: VxFs, b: VxFs, f: File, p: P, o: VxOpen) -> bool {
    &&& f.path() == p && f.pos() == 0 && f.appends() == o.append && b.fault() == a.fault()
    &&& b.bytes(p) == (if o.truncate || a.bytes(p) is None { Some(Seq::empty()) } else { a.bytes(p) })
}
pub type OpenOptions = VxOpen;
impl VxOpen {
    pub fn new() -> (r: VxOpen) ensures r == (VxOpen { truncate: false, create: false, write: false, append: false }) { VxOpen { truncate: false, create: false, write: false, append: false } }
    pub fn truncate(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { truncate: b, ..self }) { VxOpen { truncate: b, ..self } }
    pub fn create(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { create: b, ..self }) { VxOpen { create: b, ..self } }
    pub fn write(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { write: b, ..self }) { VxOpen { write: b, ..self } }
    pub fn append(self, b: bool) -> (r: VxOpen) ensures r == (VxOpen { append: b, ..self }) { VxOpen { append: b, ..self } }
    #[verifier::external_body]
    pub fn open<T: VxPath>(self, fs: &mut VxFs, p: T) -> (r: Result<File, IoError>)
        requires self.write || self.append,
        ensures match r {
                Ok(f) => opened(*old(fs), *final(fs), f, p.path(), self),
                Err(_) => kept(*old(fs), *final(fs)) && final(fs).fault(),
            },
    { unimplemented!() }
}
/// std::fs
#[verifier::external_body]
pub fn create_dir_all<T: VxPath>(fs: &mut VxFs, p: T) -> (r: Result<(), IoError>)
    ensures kept(*old(fs), *final(fs)), old(fs).fault() ==> final(fs).fault(),
        r is Ok ==> final(fs).fault() == old(fs).fault(), r is Err ==> final(fs).fault(),
{ unimplemented!() }
pub fn fs_write<T: VxPath, S: VxStr>(fs: &mut VxFs, p: T, t: S) -> (r: Result<(), IoError>)
    ensures match r { Ok(_) => final(fs).fault() == old(fs).fault() && holds(*final(fs), p.path(), t.str()), Err(_) => final(fs).fault() },
{
    match File::create(fs, p) {
        Ok(mut f) => { let r = f.write_text(fs, t); proof { if r is Ok { lemma_put(enc(t.str())); } } r }
        Err(e) => Err(e),
    }
}
pub fn fs_read_to_string<T: VxPath>(fs: &mut VxFs, p: T) -> (r: Result<String, IoError>)
    ensures still(*old(fs), *final(fs)),
        match r { Ok(s) => final(fs).fault() == old(fs).fault() && holds(*old(fs), p.path(), s@), Err(_) => final(fs).fault() },
{
    match File::open(fs, p) {
        Ok(mut f) => {
            let mut s = vx_string();
            match f.read_to_string(fs, &mut s) {
                Ok(_) => { proof { lemma_nil(s@); } Ok(s) }
                Err(e) => Err(e),
            }
        }
        Err(e) => Err(e),
    }
}
pub broadcast proof fn lemma_nil(s: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + s) == s { assert(Seq::<char>::empty() + s =~= s); }
pub broadcast proof fn lemma_put(x: Seq<u8>)
    ensures #[trigger] put(Seq::empty(), x, 0) == x
{ assert(put(Seq::empty(), x, 0) =~= x); }

// ================================================================ trusted: text
#[verifier::external_body]
pub fn vx_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub trait VxText {
    spec fn text(&self) -> Seq<char>;
    fn vx_push(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.text();
}
impl VxText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn vx_push(&self, s: &mut String) { vx_push_str(s, self) }
}
/// what can be written as text
pub trait VxStr { spec fn str(&self) -> Seq<char>; }
impl VxStr for String { open spec fn str(&self) -> Seq<char> { self@ } }
impl<'a> VxStr for &'a String { open spec fn str(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxStr for &'a str { open spec fn str(&self) -> Seq<char> { (*self)@ } }
pub fn vx_say() {}
/// a & b
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
/// the elements of a vector, in order
pub struct VxIter<T> { pub v: Vec<T>, pub i: usize }
impl<T: Copy> VxIter<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).i <= old(self).v@.len(),
        ensures final(self).v == old(self).v, old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
            old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
    {
        if self.i < self.v.len() { let t = self.v[self.i]; self.i = self.i + 1; Some(t) } else { None }
    }
}
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VxIter<T>) ensures r.v == v, r.i == 0 { VxIter { v, i: 0 } }
} // mod world

#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@ type src/cli.rs FileType

pub mod cli {
use vstd::prelude::*;
use super::base::*;
use super::text::*;
use super::world::*;
use super::FileType;
broadcast use {lemma_nil, lemma_put};

// ================================================================ trusted: the library (see C01, S01, J01)
pub uninterp spec fn css_of(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn js_of(t: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn json_of(t: Seq<char>) -> Seq<char>;
/// what the minifier that was asked for makes of the text; None where it reports an error
pub open spec fn min_of(k: FileType, t: Seq<char>) -> Option<Seq<char>> {
    match k { FileType::Css => css_of(t), FileType::Js => js_of(t), FileType::Json => Some(json_of(t)), FileType::Unknown => None }
}
#[verifier::external_body]
pub struct Minified { x: u8 }
impl Minified {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
#[verifier::external_body]
pub fn css_minify(t: &str) -> (r: Result<Minified, &'static str>)
    ensures r is Ok == css_of(t@) is Some, r is Ok ==> r->Ok_0.text() == css_of(t@)->0 { unimplemented!() }
#[verifier::external_body]
pub fn js_minify(t: &str) -> (r: Result<Minified, &'static str>)
    ensures r is Ok == js_of(t@) is Some, r is Ok ==> r->Ok_0.text() == js_of(t@)->0 { unimplemented!() }
#[verifier::external_body]
pub fn json_minify(t: &str) -> (r: Minified) ensures r.text() == json_of(t@) { unimplemented!() }
pub fn vx_to_string(m: Minified) -> (r: String) ensures r@ == m.text() { m.to_string() }

// ================================================================ trusted: clap
#[verifier::external_body]
pub struct Matches { x: u8 }
impl Matches {
    pub uninterp spec fn files(&self) -> Seq<P>;
    pub uninterp spec fn kind(&self) -> Option<FileType>;
    pub uninterp spec fn out(&self) -> Option<P>;
    #[verifier::external_body]
    pub fn vx_files(&self) -> (r: Vec<&PathBuf>)
        ensures r@.len() == self.files().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.files()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_kind(&self) -> (r: Option<&FileType>)
        ensures self.kind() != Some(FileType::Unknown), r is Some == self.kind() is Some, r is Some ==> *r->0 == self.kind()->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_out(&self) -> (r: Option<&PathBuf>)
        ensures r is Some == self.out() is Some, r is Some ==> r->0@ == self.out()->0 { unimplemented!() }
}
/// the command line that this process was started with
pub uninterp spec fn command_line() -> Matches;
#[verifier::external_body]
pub fn vx_matches() -> (r: Matches) ensures r == command_line() { unimplemented!() }
/// std::process::exit: the status tells what has happened
#[verifier::external_body]
pub fn vx_exit(failed: Ghost<bool>, code: i32) -> !
    requires failed@ == (code != 0),
{ std::process::exit(code) }

// ================================================================ the specification
pub open spec fn kname(k: FileType) -> Seq<char> {
    match k { FileType::Css => "css"@, FileType::Js => "js"@, FileType::Json => "json"@, FileType::Unknown => "unknown"@ }
}
/// the type that the name of the file says
pub open spec fn kind_of(p: P) -> FileType {
    if ext_of(p) is None || utf8_of(lower_os(ext_of(p)->0)) is None { FileType::Unknown } else {
        let e = utf8_of(lower_os(ext_of(p)->0))->0;
        if e == "css"@ { FileType::Css } else if e == "js"@ { FileType::Js } else if e == "json"@ { FileType::Json } else { FileType::Unknown }
    }
}
pub open spec fn kind(p: P, k: Option<FileType>) -> FileType { match k { Some(k) => k, None => kind_of(p) } }
pub open spec fn min_name(p: P, k: FileType) -> P { with_ext(p, "min."@ + kname(k)) }
/// the file that is written
pub open spec fn target(fs: VxFs, p: P, out: Option<P>, k: FileType) -> P {
    match out {
        None => min_name(p, k),
        Some(o) => if fs.dir(o) { min_name(join(o, p), k) } else { o },
    }
}
/// the file p was minified, or why not
pub open spec fn handled(a: VxFs, b: VxFs, p: P, out: Option<P>, k0: Option<FileType>, ok: bool) -> bool {
    let k = kind(p, k0);
    if ok {
        exists|t: Seq<char>| #[trigger] holds(a, p, t) && min_of(k, t) is Some && holds(b, target(a, p, out, k), min_of(k, t)->0)
    } else {
        // the input could be read and minified, and the output could not be written
        ||| b.fault() && exists|t: Seq<char>| #[trigger] holds(a, p, t) && min_of(k, t) is Some
        // or every file is as it was
        ||| kept(a, b) && (b.fault() || k == FileType::Unknown || exists|t: Seq<char>| #[trigger] holds(a, p, t) && min_of(k, t) is None)
    }
}

/// every file was handled, one after the other; h is the world before, between and after them
pub open spec fn all_handled(h: Seq<VxFs>, m: Matches, n: int) -> bool {
    h.len() == n + 1 && forall|i: int| 0 <= i < n ==> #[trigger] handled(h[i], h[i + 1], m.files()[i], m.out(), m.kind(), true)
}

/// a file of the command line was not handled
pub open spec fn went_wrong(b: (VxFs, VxFs, int)) -> bool {
    let m = command_line();
    0 <= b.2 < m.files().len() && handled(b.0, b.1, m.files()[b.2], m.out(), m.kind(), false)
}

pub open spec fn any_wrong() -> bool { exists|b: (VxFs, VxFs, int)| went_wrong(b) }

// ================================================================ code
//@ rw fs :: write ( $$a ) =>> fs_write(fs, $$a)
//@ rw std :: fs :: create_dir_all ( $$a ) =>> create_dir_all(fs, $$a)
//@ rw fs :: create_dir_all ( $$a ) =>> create_dir_all(fs, $$a)
//@ rw std :: fs_write =>> fs_write
//@ rw fs :: read_to_string ( $$a ) =>> fs_read_to_string(fs, $$a)
//@ rw std :: fs_read_to_string =>> fs_read_to_string
//@ rw get_all_data < T : AsRef < Path > > =>> get_all_data<T: VxPath>
//@ rw std :: io :: ErrorKind =>> ErrorKind
//@ rw io :: ErrorKind =>> ErrorKind
//@ rw io :: Result < String > =>> Result<String, IoError>
//@ rw file_path : T =>> fs: &mut VxFs, file_path: T
//@ rw File :: open ( $$a ) =>> File::open(fs, $$a)
//@ rw File :: create ( $$a ) =>> File::create(fs, $$a)
//@ rw . read_to_string ( & mut $a ) =>> .read_to_string(fs, &mut $a)
//@ rw . open ( $$a ) =>> .open(fs, $$a)
//@ rw . is_dir ( ) =>> .is_dir(fs)
//@ rw write ! ( $w , "{minified}" ) =>> $w.write_text(fs, &minified)
//@ rw write ! ( $w , "{}" , $$a ) =>> $w.write_text(fs, &$$a)
//@ rw $w . write_all ( $a . as_bytes ( ) ) =>> $w.write_text(fs, &$a)
//@ rw eprintln ! $a =>> vx_say()
//@ rw println ! $a =>> vx_say()
//@ rw css :: minify =>> css_minify
//@ rw js :: minify =>> js_minify
//@ rw json :: minify =>> json_minify
//@ rw | $m | $m . to_string ( ) =>> vx_to_string
//@ fn src/cli.rs impl=FileType as_str
//@ spec
    ensures r@ == kname(*self),
//@ end
//@ fn src/cli.rs impl=FileType trait=From from
//@ spec
    ensures r == kind_of(value@),
//@ start
    proof { reveal_strlit(""); reveal_strlit("css"); reveal_strlit("js"); reveal_strlit("json"); assert(""@.len() == 0 && "css"@.len() == 3 && "js"@.len() == 2 && "json"@.len() == 4); }
//@ end
//@ fn src/cli.rs get_all_data
//@ rw String :: new ( ) =>> vx_string ( )
//@ spec
    ensures still(*old(fs), *final(fs)),
        match r { Ok(s) => final(fs).fault() == old(fs).fault() && holds(*old(fs), file_path.path(), s@), Err(_) => final(fs).fault() },
//@ end
//@ rw get_all_data ( $$a ) =>> get_all_data(fs, $$a)
//@ fn src/cli.rs write_out_file
//@ rw write_out_file ( $$a , $$b , $$c ) =>> write_out_file(fs: &mut VxFs, $$a, $$b, $$c)
//@ spec
    ensures handled(*old(fs), *final(fs), file_path@, match out_path { Some(o) => Some(o@), None => None }, match ext { Some(k) => Some(*k), None => None }, r),
//@ end
//@ type src/cli.rs Cli
//@ rw command ! ( ) $$a . get_matches ( ) =>> vx_matches ( )
//@ rw matches . get_many :: < PathBuf > ( "FILE" ) . unwrap_or_default ( ) . collect :: < Vec < _ > > ( ) =>> matches.vx_files()
//@ rw matches . get_one :: < FileType > ( "FileType" ) =>> matches.vx_kind()
//@ rw matches . get_one :: < PathBuf > ( "output" ) =>> matches.vx_out()
//@ rw $a . into_iter ( ) =>> $a
//@ fn src/cli.rs impl=Cli init
//@ rw init ( ) =>> init(fs: &mut VxFs)
//@ rw write_out_file ( $$a , $$b , $$c ) =>> write_out_file(fs, $$a, $$b, $$c)
//@ rw $x &= $$a ; =>> $x = vx_and($x, $$a);
//@ rw std :: process :: exit ( $$a ) =>> vx_exit(Ghost(any_wrong()), $$a)
//@ spec
    ensures
        // the process ends with status 0 only if every file was handled
        exists|h: Seq<VxFs>| #[trigger] all_handled(h, command_line(), command_line().files().len() as int) && h[0] == *old(fs) && h.last() == *final(fs),
//@ start
    let ghost mut failed = false;
    let ghost mut h = seq![*fs];
    let ghost mut bad = (*fs, *fs, 0int);
//@ loop 1
    invariant __it1.i <= __it1.v@.len(), __it1.v@.len() == command_line().files().len(),
        forall|i: int| 0 <= i < __it1.v@.len() ==> (#[trigger] __it1.v@[i])@ == command_line().files()[i],
        out is Some == command_line().out() is Some, out is Some ==> out->0@ == command_line().out()->0,
        ext is Some == command_line().kind() is Some, ext is Some ==> *ext->0 == command_line().kind()->0,
        failed == !all_written,
        all_written ==> h.len() >= 1 && h[0] == *old(fs) && h.last() == *fs && all_handled(h, command_line(), __it1.i as int),
        !all_written ==> went_wrong(bad),
    ensures __it1.i == __it1.v@.len(),
    decreases __it1.v@.len() - __it1.i
//@ loop 1 start
    let ghost w0 = *fs;
    let ghost i0 = __it1.i as int;
    let ghost ok0 = all_written;
//@ loop 1 end
    proof {
        failed = !all_written;
        if all_written { h = h.push(*fs); } else if ok0 { bad = (w0, *fs, i0); }
    }
//@ end
} // mod cli
fn main() {}
}
