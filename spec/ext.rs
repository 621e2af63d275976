// Prelude shared by the command-line tool and the Python module: paths, files, cursors, text.
verus! {
pub mod vxe {
use vstd::prelude::*;
pub use crate::vx::*;
pub use crate::vxe::path::{Path, PathBuf};

/// text produced by an implementation of Display
pub uninterp spec fn display<T: ?Sized>(x: &T) -> Seq<char>;
#[verifier::external_body]
pub fn vx_to_string<T: ?Sized>(x: &T) -> (r: String) ensures r@ == display(x) { unimplemented!() }
/// copies whose elements equal the originals
pub trait VxPlain {}
impl VxPlain for u8 {}
impl VxPlain for String {}
impl VxPlain for PathBuf {}
#[verifier::external_body]
pub fn vx_to_vec<T: VxPlain>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }

impl AsRef<[u8]> for &str { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRef<[u8]> for String { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRef<[u8]> for &String { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
impl AsRef<[u8]> for Vec<u8> { uninterp spec fn as_ref_spec(&self) -> &[u8]; #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub broadcast axiom fn ax_str_as_ref(a: &str) ensures (#[trigger] AsRef::<[u8]>::as_ref_spec(&a))@ == str_bytes(a);
pub broadcast axiom fn ax_string_as_ref(a: String) ensures (#[trigger] AsRef::<[u8]>::as_ref_spec(&a))@ == string_bytes(&a);
pub broadcast axiom fn ax_string_ref_as_ref(a: &String) ensures (#[trigger] AsRef::<[u8]>::as_ref_spec(&a))@ == string_bytes(a);
pub broadcast axiom fn ax_vec_as_ref(a: Vec<u8>) ensures (#[trigger] AsRef::<[u8]>::as_ref_spec(&a))@ == a@;
pub broadcast group texts { ax_str_as_ref, ax_string_as_ref, ax_string_ref_as_ref, ax_vec_as_ref }

impl Write for Vec<u8> {
    open spec fn sink(&self) -> Seq<u8> { self@ }
    open spec fn dependable(&self) -> bool { true }
    open spec fn place(&self) -> int { 0 }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), io::Error>) { unimplemented!() }
    fn flush(&mut self) -> (r: Result<(), io::Error>) { Ok(()) }
}

pub mod path {
use vstd::prelude::*;
use crate::vx::AsRef;
#[verifier::external_body]
pub struct Path { x: u8 }
#[verifier::external_body]
pub struct PathBuf { x: u8 }
/// the file name a text stands for
pub uninterp spec fn named(s: Seq<char>) -> Path;
pub uninterp spec fn path_of(p: PathBuf) -> Path;
impl AsRef<Path> for PathBuf { uninterp spec fn as_ref_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for &PathBuf { uninterp spec fn as_ref_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for &Path { open spec fn as_ref_spec(&self) -> &Path { *self } fn as_ref(&self) -> (r: &Path) { *self } }
impl AsRef<Path> for String { uninterp spec fn as_ref_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for &String { uninterp spec fn as_ref_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl AsRef<Path> for &str { uninterp spec fn as_ref_spec(&self) -> &Path; #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
pub broadcast axiom fn ax_path_str(a: &str) ensures *(#[trigger] AsRef::<Path>::as_ref_spec(&a)) == named(a@);
pub broadcast axiom fn ax_pathbuf(a: PathBuf) ensures *(#[trigger] AsRef::<Path>::as_ref_spec(&a)) == path_of(a);
pub broadcast axiom fn ax_pathbuf_ref(a: &PathBuf) ensures *(#[trigger] AsRef::<Path>::as_ref_spec(&a)) == path_of(*a);
pub broadcast axiom fn ax_path_string(a: String) ensures *(#[trigger] AsRef::<Path>::as_ref_spec(&a)) == named(a@);
pub broadcast axiom fn ax_path_string_ref(a: &String) ensures *(#[trigger] AsRef::<Path>::as_ref_spec(&a)) == named(a@);
pub broadcast group paths { ax_pathbuf, ax_pathbuf_ref, ax_path_string, ax_path_string_ref, ax_path_str }
/// whether the file is there when the command looks
pub uninterp spec fn present(p: Path) -> bool;
impl Path {
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures path_of(r) == *self { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == present(*self) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == present(path_of(*self)) { unimplemented!() }
}
}

pub mod fs {
use vstd::prelude::*;
use crate::vx::io::*;
use crate::vx::AsRef;
use crate::vxe::path::{Path, present};
/// no device failure and no missing permission
pub uninterp spec fn disk_ok() -> bool;
/// what the named file holds when the command or call starts
pub uninterp spec fn file_bytes(p: Path) -> Seq<u8>;
/// an open file: for reading a stream, for writing a destination
#[verifier::external_body]
pub struct File { x: u8 }
impl Stream for File { uninterp spec fn stream(&self) -> Seq<u8>; uninterp spec fn pos(&self) -> nat; uninterp spec fn reliable(&self) -> bool; }
impl Read for File {
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { unimplemented!() }
}
impl Seek for File {
    #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64, Error>) { unimplemented!() }
    #[verifier::external_body] fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>) { unimplemented!() }
}
impl Write for File {
    uninterp spec fn sink(&self) -> Seq<u8>;
    uninterp spec fn dependable(&self) -> bool;
    uninterp spec fn place(&self) -> int;
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
}
/// the file a handle writes to
pub uninterp spec fn file_at(place: int) -> Path;
pub open spec fn target(h: File) -> Path { file_at(h.place()) }
impl File {
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(p: P) -> (r: Result<File, Error>) ensures r is Ok ==> r->Ok_0.stream() == file_bytes(*p.as_ref_spec()) && r->Ok_0.pos() == 0,
        disk_ok() && present(*p.as_ref_spec()) ==> r is Ok && r->Ok_0.reliable() { unimplemented!() }
}
}

pub mod io {
use vstd::prelude::*;
pub use crate::vx::io::*;
/// std::io::Cursor over a vector: contents and position; writing at the end appends
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cursor<T> { x: T }
impl Stream for Cursor<Vec<u8>> {
    uninterp spec fn stream(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    open spec fn reliable(&self) -> bool { true }
}
impl Read for Cursor<Vec<u8>> {
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { unimplemented!() }
}
impl Seek for Cursor<Vec<u8>> {
    #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64, Error>) { unimplemented!() }
    #[verifier::external_body] fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>) { unimplemented!() }
}
impl Write for Cursor<Vec<u8>> {
    /// everything before the position
    open spec fn sink(&self) -> Seq<u8> { self.stream().take(self.pos() as int) }
    /// at the end, so that writing appends
    open spec fn dependable(&self) -> bool { self.pos() == self.stream().len() }
    open spec fn place(&self) -> int { 0 }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { x: u8 }
#[verifier::external_body]
pub struct Flat { x: u8 }
pub uninterp spec fn bytes_of(b: Bytes) -> Seq<u8>;
pub uninterp spec fn flat_of(b: Flat) -> Seq<u8>;
impl Bytes { #[verifier::external_body] pub fn flatten(self) -> (r: Flat) ensures flat_of(r) == bytes_of(self) { unimplemented!() } }
pub trait FromBytes: Sized { spec fn seq_of(&self) -> Seq<u8>; }
impl FromBytes for Vec<u8> { open spec fn seq_of(&self) -> Seq<u8> { self@ } }
impl Flat {
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: Flat) ensures flat_of(r) == (if n < flat_of(self).len() { flat_of(self).take(n as int) } else { flat_of(self) }) { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Flat) ensures flat_of(r) == (if n < flat_of(self).len() { flat_of(self).skip(n as int) } else { Seq::<u8>::empty() }) { unimplemented!() }
}
impl Flat { #[verifier::external_body] pub fn collect<B: FromBytes>(self) -> (r: B) ensures r.seq_of() == flat_of(self) { unimplemented!() } }
impl Cursor<Vec<u8>> {
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Self) ensures r.stream() == v@, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn set_position(&mut self, p: u64) ensures (*final(self)).stream() == (*old(self)).stream(), (*final(self)).pos() == p { unimplemented!() }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64) ensures r == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.stream() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.stream() { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes(self) -> (r: Bytes) ensures bytes_of(r) == (if self.pos() <= self.stream().len() { self.stream().skip(self.pos() as int) } else { Seq::<u8>::empty() }) { unimplemented!() }
}
} // io
} // vxe
} // verus!
