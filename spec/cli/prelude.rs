// Additional prelude for the command-line tool: output, files created, lines of text, threads.
verus! {
pub mod vx2 {
use vstd::prelude::*;
pub use crate::vxe::*;
pub use std::sync::Arc;
pub use crate::vxe::fs::File;
use vstd::utf8::encode_utf8;

// ------------------------------------------------------------------ effects of the command
/// what the command has written to standard output, the files it has created or truncated, and
/// the output of the threads it has joined. The token is handed to every function with such an
/// effect; a thread body starts with a token of its own and returns it.
#[verifier::external_body]
pub tracked struct World { x: u8 }
impl World {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn logs(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn touched(&self) -> Seq<Path>;
    /// standard input has been taken
    pub uninterp spec fn taken(&self) -> bool;
    pub open spec fn same_files(&self, o: &World) -> bool { self.touched() == o.touched() && self.taken() == o.taken() && self.logs() == o.logs() }
    pub axiom fn fresh() -> (tracked r: World) ensures r.out() == Seq::<u8>::empty(), r.logs() == Seq::<Seq<u8>>::empty(), r.touched() == Seq::<Path>::empty(), r.taken();
    pub axiom fn merge(tracked &mut self, tracked o: World) ensures
        final(self).out() == old(self).out(), final(self).logs() == old(self).logs().push(o.out()), final(self).touched() == old(self).touched() + o.touched(), final(self).taken() == old(self).taken();
}
pub broadcast group outputs { ax_shown_u8, ax_shown_u64, ax_shown_usize, ax_shown_string, ax_shown_str, ax_shown_ref, ax_shown_fmt, lemma_pieces }
#[verifier::external_body]
pub fn vx_out_text(s: &str, Tracked(w): Tracked<&mut World>) ensures final(w).out() == old(w).out() + str_bytes(s), final(w).same_files(&*old(w)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_out<T: ?Sized>(x: &T, Tracked(w): Tracked<&mut World>) ensures final(w).out() == old(w).out() + shown(x), final(w).same_files(&*old(w)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_out_fixed<T: ?Sized>(x: &T, n: usize, Tracked(w): Tracked<&mut World>) ensures final(w).out() == old(w).out() + fixed(x, n as int), final(w).same_files(&*old(w)) { unimplemented!() }
/// File::create
#[verifier::external_body]
pub fn vx_create<P: AsRef<Path>>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<fs::File, io::Error>)
    ensures
        final(w).out() == old(w).out(), final(w).logs() == old(w).logs(), final(w).taken() == old(w).taken(),
        r is Ok ==> r->Ok_0.sink() == Seq::<u8>::empty() && fs::target(r->Ok_0) == *p.as_ref_spec() && final(w).touched() == old(w).touched().push(*p.as_ref_spec()),
        r is Err ==> final(w).touched() == old(w).touched(),
        fs::disk_ok() ==> r is Ok && r->Ok_0.dependable(),
{ unimplemented!() }

// ------------------------------------------------------------------ standard input, lines
pub uninterp spec fn stdin_bytes() -> Seq<u8>;
#[verifier::external_body]
pub struct Stdin { x: u8 }
impl Stream for Stdin { uninterp spec fn stream(&self) -> Seq<u8>; uninterp spec fn pos(&self) -> nat; uninterp spec fn reliable(&self) -> bool; }
impl Read for Stdin {
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_stdin(Tracked(w): Tracked<&mut World>) -> (r: Stdin)
    requires !old(w).taken()
    ensures r.stream() == stdin_bytes(), r.pos() == 0, final(w).taken(), final(w).out() == old(w).out(), final(w).logs() == old(w).logs(), final(w).touched() == old(w).touched()
{ unimplemented!() }
/// lines of a text: cut at line feeds, one carriage return before a line feed taken off
pub open spec fn cut(b: Seq<u8>, cur: Seq<u8>) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { if cur.len() == 0 { Seq::empty() } else { seq![cur] } }
    else if b[0] == 10 { seq![if cur.len() > 0 && cur.last() == 13 { cur.drop_last() } else { cur }] + cut(b.skip(1), Seq::empty()) }
    else { cut(b.skip(1), cur.push(b[0])) }
}
#[verifier::opaque]
pub open spec fn lines_of(b: Seq<u8>) -> Seq<Seq<u8>> { cut(b, Seq::empty()) }
/// lines handed out one by one; a read error or a line that is not UTF-8 comes as an error
#[verifier::external_body]
pub struct Lines { x: u8 }
impl Lines {
    pub uninterp spec fn rest(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<String, io::Error>>) ensures
        r is None ==> old(self).rest().len() == 0,
        r is Some && r->Some_0 is Ok ==> old(self).rest().len() > 0 && string_bytes(&(r->Some_0->Ok_0)) == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
impl Stdin {
    pub fn lock(self) -> (r: Stdin) ensures r == self { self }
    #[verifier::external_body]
    pub fn lines(self) -> (r: Lines) ensures self.pos() == 0 ==> r.rest() == lines_of(self.stream()) { unimplemented!() }
}
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn lines(self) -> (r: Lines) ensures self.pos() == 0 ==> r.rest() == lines_of(self.stream()) { unimplemented!() }
}

// ------------------------------------------------------------------ pieces of a slice
pub open spec fn pieces<T>(s: Seq<T>, n: int) -> Seq<Seq<T>> decreases s.len() {
    if s.len() == 0 || n <= 0 { Seq::empty() } else if s.len() <= n { seq![s] } else { seq![s.take(n)] + pieces(s.skip(n), n) }
}
pub open spec fn joined<T>(p: Seq<Seq<T>>) -> Seq<T> decreases p.len() { if p.len() == 0 { Seq::empty() } else { joined(p.drop_last()) + p.last() } }
pub proof fn lemma_joined_front<T>(a: Seq<T>, p: Seq<Seq<T>>) ensures joined(seq![a] + p) == a + joined(p) decreases p.len() {
    let q = seq![a] + p;
    if p.len() == 0 { assert(q.drop_last() =~= Seq::empty()); assert(q.last() == a); assert(joined(q.drop_last()) =~= Seq::<T>::empty()); assert(joined(q) =~= a + joined(p)); }
    else { assert(q.drop_last() =~= seq![a] + p.drop_last()); lemma_joined_front(a, p.drop_last()); assert(joined(q) =~= a + joined(p)); }
}
pub broadcast proof fn lemma_pieces<T>(s: Seq<T>, n: int) requires n > 0 ensures joined(#[trigger] pieces(s, n)) == s, s.len() > 0 ==> pieces(s, n).len() > 0 decreases s.len() {
    if s.len() == 0 { assert(joined(pieces(s, n)) =~= s); }
    else if s.len() <= n { assert(seq![s] + Seq::<Seq<T>>::empty() =~= seq![s]); lemma_joined_front(s, Seq::empty()); assert(s + joined(Seq::<Seq<T>>::empty()) =~= s); }
    else { lemma_pieces(s.skip(n), n); lemma_joined_front(s.take(n), pieces(s.skip(n), n)); assert(s.take(n) + s.skip(n) =~= s); }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Chunks<'a, T> { s: &'a [T] }
impl<'a, T> Chunks<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<T>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [T]>) ensures
        r is None <==> old(self).rest().len() == 0,
        r is None ==> final(self).rest() == old(self).rest(),
        r is Some ==> r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chunks<'a, T>(s: &'a [T], n: usize) -> (r: Chunks<'a, T>) requires n > 0 ensures r.rest() == pieces(s@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_chunks_exact<'a, T>(s: &'a [T], n: usize) -> (r: Chunks<'a, T>) requires n > 0 ensures r.rest() == pieces(s@.take(s@.len() - s@.len() % n as nat), n as int) { unimplemented!() }

// ------------------------------------------------------------------ errors, unwrapping
pub mod anyhow {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error { x: u8 }
impl vstd::std_specs::convert::FromSpecImpl<crate::vxe::io::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: crate::vxe::io::Error) -> Self { arbitrary() } }
impl From<crate::vxe::io::Error> for Error { #[verifier::external_body] fn from(e: crate::vxe::io::Error) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<crate::bloom::Error> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: crate::bloom::Error) -> Self { arbitrary() } }
impl From<crate::bloom::Error> for Error { #[verifier::external_body] fn from(e: crate::bloom::Error) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<crate::bloom::OptLevelError> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: crate::bloom::OptLevelError) -> Self { arbitrary() } }
impl From<crate::bloom::OptLevelError> for Error { #[verifier::external_body] fn from(e: crate::bloom::OptLevelError) -> (r: Self) { unimplemented!() } }
}
#[verifier::external_body]
pub fn vx_error() -> (r: anyhow::Error) { unimplemented!() }
/// unwrap and expect: nothing may be missing from an Option; a failed Result ends the command
/// with an error (a panic), which must not happen once a file has been touched
pub trait VxTry: Sized { type Out;
    spec fn is(&self) -> bool;
    spec fn val(&self) -> Self::Out;
    spec fn must() -> bool;
    fn vx_get(self) -> (r: Self::Out) requires Self::must() ==> self.is() ensures self.is(), r == self.val();
    fn vx_opt(self) -> (r: Option<Self::Out>) ensures r == (if self.is() { Some(self.val()) } else { None });
}
impl<T> VxTry for Option<T> { type Out = T;
    open spec fn is(&self) -> bool { self is Some }
    open spec fn val(&self) -> T { self->Some_0 }
    open spec fn must() -> bool { true }
    #[verifier::external_body] fn vx_get(self) -> (r: T) { unimplemented!() }
    fn vx_opt(self) -> (r: Option<T>) { self }
}
impl<T, E> VxTry for Result<T, E> { type Out = T;
    open spec fn is(&self) -> bool { self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
    open spec fn must() -> bool { false }
    #[verifier::external_body] fn vx_get(self) -> (r: T) { unimplemented!() }
    fn vx_opt(self) -> (r: Option<T>) { match self { Ok(v) => Some(v), Err(_) => None } }
}
pub fn vx_unwrap<X: VxTry>(x: X, Tracked(w): Tracked<&mut World>) -> (r: X::Out)
    requires X::must() ==> x.is(), x.is() || old(w).touched().len() == 0
    ensures x.is(), r == x.val(), *final(w) == *old(w)
{ x.vx_get() }
/// an arm of the command left out of the proof; the contract of main excludes it
#[verifier::external_body]
pub fn vx_left_out() requires false { unimplemented!() }

// ------------------------------------------------------------------ threads, locks, time
pub mod thread {
use vstd::prelude::*;
#[verifier::external_body]
pub struct NonZero { x: u8 }
impl NonZero { #[verifier::external_body] pub fn get(self) -> (r: usize) ensures r > 0 { unimplemented!() } }
#[verifier::external_body]
pub fn available_parallelism() -> (r: Result<NonZero, crate::vxe::io::Error>) { unimplemented!() }
}
/// JoinHandle::join of a thread with its own token
pub fn vx_join<T>(h: vstd::thread::JoinHandle<(T, Tracked<World>)>, Tracked(w): Tracked<&mut World>) -> (r: Result<T, ()>)
    ensures
        r is Ok ==> exists|t: World| #[trigger] h.predicate((r->Ok_0, Tracked(t))) && final(w).logs() == old(w).logs().push(t.out()) && final(w).touched() == old(w).touched() + t.touched(),
        r is Err ==> *final(w) == *old(w),
        final(w).out() == old(w).out(), final(w).taken() == old(w).taken(),
{
    let ghost h0 = h; let ghost w0 = *w;
    match h.join() {
        Ok(p) => {
            let ghost p0 = p;
            let (x, Tracked(t)) = p;
            let ghost gt = t;
            proof { assert(h0.predicate(p0)); assert(p0 == (x, Tracked(gt))); }
            proof { w.merge(t); assert(h0.predicate((x, Tracked(gt)))); assert(w.logs() == w0.logs().push(gt.out()) && w.touched() == w0.touched() + gt.touched()); }
            let r: Result<T, ()> = Ok(x);
            assert(h0.predicate((r->Ok_0, Tracked(gt))));
            r
        }
        Err(_) => Err(()),
    }
}
pub mod sync {
use vstd::prelude::*;
pub use std::sync::Arc;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { x: T }
pub struct PoisonError;
impl<T> RwLock<T> {
    /// what the lock protects; there is no way to write through it here
    pub uninterp spec fn content(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Self) ensures r.content() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<&T, PoisonError>) ensures r is Ok ==> *(r->Ok_0) == self.content() { unimplemented!() }
}
}
#[verifier::external_body]
pub struct Duration { x: u8 }
#[verifier::external_body]
pub fn vx_timed() -> (r: Duration) { unimplemented!() }
// nothing is known about the result of these
pub assume_specification [str::trim] (s: &str) -> &str;
pub assume_specification [str::trim_end] (s: &str) -> &str;
pub assume_specification [str::trim_start] (s: &str) -> &str;
pub assume_specification [str::to_lowercase] (s: &str) -> String;
pub assume_specification [str::to_uppercase] (s: &str) -> String;
} // vx2
} // verus!
