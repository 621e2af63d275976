@# The Python module: every operation is the library operation (C21)

@drop py::poppy_py

@mod py
broadcast use {crate::vxe::texts, crate::vxe::path::paths};
impl BloomFilter { pub open spec fn wf(&self) -> bool { self.0.wf() } }
/// the exception a library error becomes
pub open spec fn raised(e: poppy::Error) -> PyErr { PyErr::Value(Ghost(display(&e))) }
impl vstd::std_specs::convert::FromSpecImpl<poppy::Error> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: poppy::Error) -> Self { Error(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Error> for PyErr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: Error) -> Self { raised(e.0) } }
pub open spec fn opt_of(o: u8) -> poppy::OptLevel { if o == 0 { poppy::OptLevel::None } else if o == 1 { poppy::OptLevel::Space } else if o == 2 { poppy::OptLevel::Speed } else { poppy::OptLevel::Best } }
/// r is what the library's constructor gives, its error raised
pub open spec fn constructed(version: u8, capacity: usize, fpp: f64, opt: poppy::OptLevel, r: PyResult<BloomFilter>) -> bool {
    exists|l: Result<poppy::BloomFilter, poppy::Error>| #[trigger] poppy::bloom::made(version, capacity, fpp, opt, l) && match (l, r) {
        (Ok(b), Ok(x)) => x.0 == b && b.wf(), (Err(e), Err(x)) => x == raised(e), _ => false }
}
/// dumping and loading again gives the same filter
pub proof fn prop_dumps_loads(b: BloomFilter, l: BloomFilter)
    requires b.0.full(), b.0.flagged()
    ensures poppy::bloom::loadable(b.0.ser()), l.0.decodes(b.0.ser(), false) ==> l.0.same_state(&b.0) && l.0.ser() == b.0.ser()
{
    poppy::bloom::prop_round_trip(b.0, l.0);
}

@fn py::<Error as From>::from
ret r
ensures r == Error(value)

@fn py::<PyErr as From>::from
ret r
ensures r == raised(value.0)

@fn py::loads
ret r
ensures
    r is Ok ==> (r->Ok_0).0.decodes(bytes@, false),
    r is Err ==> r->Err_0 is Value,
    poppy::bloom::loadable(bytes@) ==> r is Ok
@entry
proof { assert(bytes@.skip(0) =~= bytes@); }

@fn py::load
ret r
ensures r is Ok ==> (r->Ok_0).0.decodes(fs::file_bytes(path::path_of(path)), false)
@entry
proof { assert(fs::file_bytes(path::path_of(path)).skip(0) =~= fs::file_bytes(path::path_of(path))); }

@fn py::BloomFilter::new
ret r
requires poppy::bloom::affordable(2, capacity, fpp, poppy::OptLevel::None)
ensures constructed(2, capacity, fpp, poppy::OptLevel::None, r)

@fn py::BloomFilter::with_version
ret r
requires poppy::bloom::affordable(version, capacity, fpp, poppy::OptLevel::None)
ensures constructed(version, capacity, fpp, poppy::OptLevel::None, r)

@fn py::BloomFilter::with_params
ret r
requires poppy::bloom::affordable(version, capacity, fpp, opt_of(opt))
ensures
    opt <= 3 ==> constructed(version, capacity, fpp, opt_of(opt), r),
    opt > 3 ==> r is Err && r->Err_0 is Value

@fn py::BloomFilter::insert_bytes
ret r
requires old(self).wf()
ensures final(self).wf(),
    r is Ok ==> old(self).0.inserted(data@, &final(self).0, Ok(r->Ok_0)),
    r is Err ==> exists|e: poppy::Error| #[trigger] raised(e) == r->Err_0 && old(self).0.inserted(data@, &final(self).0, Err(e))

@fn py::BloomFilter::insert_str
ret r
requires old(self).wf()
ensures final(self).wf(),
    r is Ok ==> old(self).0.inserted(str_bytes(s), &final(self).0, Ok(r->Ok_0)),
    r is Err ==> exists|e: poppy::Error| #[trigger] raised(e) == r->Err_0 && old(self).0.inserted(str_bytes(s), &final(self).0, Err(e))

@fn py::BloomFilter::contains_bytes
ret r
requires old(self).wf()
ensures r == old(self).0.member(data@), *final(self) == *old(self)

@fn py::BloomFilter::contains_str
ret r
requires old(self).wf()
ensures r == old(self).0.member(str_bytes(s)), *final(self) == *old(self)

@fn py::BloomFilter::is_full
ret r
ensures r == (self.0.s_count() >= self.0.s_capacity())

@fn py::BloomFilter::union_merge
ret r
requires old(self).wf()
ensures
    r is Ok <==> old(self).0.compatible(&o.0),
    r is Ok ==> old(self).0.united(&o.0, &final(self).0),
    r is Err ==> r->Err_0 is Value && final(self).0.same_state(&old(self).0)

@fn py::BloomFilter::count_common_entries
ret r
requires self.wf()
ensures
    r is Ok <==> self.0.compatible(&o.0),
    r is Ok ==> r->Ok_0 == self.0.common(&o.0),
    r is Err ==> r->Err_0 is Value

@fn py::BloomFilter::dumps
ret r
requires self.wf()
ensures r is Ok, r->Ok_0.view() == self.0.ser()

@fn py::BloomFilter::save
ret r
requires self.wf()
ensures r is Ok ==> exists|h: fs::File| fs::target(h) == path::path_of(path) && #[trigger] h.sink() == self.0.ser()

@fn py::BloomFilter::version
ret r
ensures r == (match self.0 { poppy::BloomFilter::V1(_) => 1u8, poppy::BloomFilter::V2(_) => 2u8 })

@fn py::BloomFilter::capacity
ret r
ensures r == self.0.s_capacity()

@fn py::BloomFilter::fpp
ret r
ensures r == self.0.s_fpp()

@fn py::BloomFilter::count_estimate
ret r
ensures r == self.0.s_count()

@fn py::BloomFilter::data
ret r
ensures r@ == self.0.s_data()
