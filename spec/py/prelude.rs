// Additional prelude for the Python module: models of the PyO3 items it names.
verus! {
pub mod vx2 {
use vstd::prelude::*;
pub use crate::vxe::*;

/// a Python exception: a value error with its message, or what PyO3 makes of an io error
pub enum PyErr { Value(Ghost<Seq<char>>), Os(io::Error) }
pub type PyResult<T> = Result<T, PyErr>;
pub struct PyValueError;
impl PyValueError {
    #[verifier::external_body]
    pub fn new_err(s: String) -> (r: PyErr) ensures r == PyErr::Value(Ghost(s@)) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for PyErr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: io::Error) -> Self { PyErr::Os(e) } }
impl From<io::Error> for PyErr { fn from(e: io::Error) -> (r: Self) ensures r == PyErr::Os(e) { PyErr::Os(e) } }
#[verifier::external_body]
pub struct Python<'py> { x: &'py u8 }
#[verifier::external_body]
pub struct PyBytes { x: u8 }
impl PyBytes {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new<'py>(py: Python<'py>, b: &[u8]) -> (r: &'py PyBytes) ensures r.view() == b@ { unimplemented!() }
}
impl fs::File {
    #[verifier::external_body]
    pub fn create<P: AsRef<Path>>(p: P) -> (r: Result<fs::File, io::Error>) ensures r is Ok ==> r->Ok_0.sink() == Seq::<u8>::empty() && fs::target(r->Ok_0) == *p.as_ref_spec() { unimplemented!() }
}
} // vx2
} // verus!
