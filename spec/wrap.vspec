@# The version-agnostic filter (C17)

@mod bloom
impl BloomFilter {
    pub open spec fn wf(&self) -> bool { match *self { BloomFilter::V1(b) => b.wf(), BloomFilter::V2(b) => b.wf() } }
    pub open spec fn member(&self, d: Seq<u8>) -> bool { match *self { BloomFilter::V1(b) => b.member(d), BloomFilter::V2(b) => b.member(crate::key_hash::<crate::hash::wyhash::WyHasher>(d)) } }
    pub open spec fn compatible(&self, o: &Self) -> bool {
        match (*self, *o) { (BloomFilter::V1(a), BloomFilter::V1(b)) => a.compatible(&b), (BloomFilter::V2(a), BloomFilter::V2(b)) => a.compatible(&b), _ => false }
    }
    pub open spec fn inserted(&self, d: Seq<u8>, f: &Self, r: Result<bool, Error>) -> bool {
        match (*self, *f) { (BloomFilter::V1(a), BloomFilter::V1(b)) => a.inserted(d, &b, r), (BloomFilter::V2(a), BloomFilter::V2(b)) => a.inserted(crate::key_hash::<crate::hash::wyhash::WyHasher>(d), &b, r), _ => false }
    }
    pub open spec fn united(&self, o: &Self, f: &Self) -> bool {
        match (*self, *o, *f) { (BloomFilter::V1(a), BloomFilter::V1(b), BloomFilter::V1(c)) => a.united(&b, &c), (BloomFilter::V2(a), BloomFilter::V2(b), BloomFilter::V2(c)) => a.united(&b, &c), _ => false }
    }
    pub open spec fn cleared(&self, f: &Self) -> bool {
        match (*self, *f) { (BloomFilter::V1(a), BloomFilter::V1(b)) => a.cleared(&b), (BloomFilter::V2(a), BloomFilter::V2(b)) => a.cleared(&b), _ => false }
    }
    pub open spec fn same_state(&self, f: &Self) -> bool {
        match (*self, *f) { (BloomFilter::V1(a), BloomFilter::V1(b)) => a.same_state(&b), (BloomFilter::V2(a), BloomFilter::V2(b)) => a.same_state(&b), _ => false }
    }
    pub open spec fn common(&self, o: &Self) -> u64 {
        match (*self, *o) { (BloomFilter::V1(a), BloomFilter::V1(b)) => a.common(&b), (BloomFilter::V2(a), BloomFilter::V2(b)) => a.common(&b), _ => 0 }
    }
    pub open spec fn ser(&self) -> Seq<u8> { match *self { BloomFilter::V1(b) => b.ser(), BloomFilter::V2(b) => b.ser() } }
    pub open spec fn s_capacity(&self) -> u64 { match *self { BloomFilter::V1(b) => b.capacity, BloomFilter::V2(b) => b.capacity } }
    pub open spec fn s_fpp(&self) -> f64 { match *self { BloomFilter::V1(b) => b.fpp, BloomFilter::V2(b) => b.fpp } }
    pub open spec fn s_count(&self) -> u64 { match *self { BloomFilter::V1(b) => b.count, BloomFilter::V2(b) => b.count } }
    pub open spec fn s_data(&self) -> Seq<u8> { match *self { BloomFilter::V1(b) => b.data@, BloomFilter::V2(b) => b.data@ } }
    pub open spec fn s_size(&self) -> int { match *self { BloomFilter::V1(b) => b.size(), BloomFilter::V2(b) => b.size() } }
    pub open spec fn s_flags(&self) -> Flags { match *self { BloomFilter::V1(b) => b.flags, BloomFilter::V2(b) => b.flags } }
    /// self is what the bytes s decode to
    pub open spec fn decodes(&self, s: Seq<u8>, partial: bool) -> bool {
        &&& s.len() >= 8 && self.s_flags().bytes() == s.subrange(0, 8) && self.wf()
        &&& match *self { BloomFilter::V1(b) => s[0] == 1 && b.decodes(s.skip(8), partial), BloomFilter::V2(b) => s[0] == 2 && b.decodes(s.skip(8), partial) }
    }
}
pub open spec fn loadable(s: Seq<u8>) -> bool {
    s.len() >= 8 && s[1] <= 3 && ((s[0] == 1 && v1::loadable(s.skip(8))) || (s[0] == 2 && v2::loadable(s.skip(8))))
}
pub open spec fn affordable(version: u8, cap: usize, fpp: f64, opt: OptLevel) -> bool {
    (version == 1 ==> v1::affordable(cap as u64, fpp)) && (version == 2 ==> v2::affordable(cap as u64, fpp, opt))
}
pub open spec fn made(version: u8, cap: usize, fpp: f64, opt: OptLevel, r: Result<BloomFilter, Error>) -> bool {
    &&& r is Ok <==> (version == 1 || version == 2) && crate::fpp_ok(fpp)
    &&& r is Ok && version == 1 ==> r->Ok_0 is V1 && v1::built((r->Ok_0)->V1_0, cap as u64, fpp)
    &&& r is Ok && version == 2 ==> r->Ok_0 is V2 && v2::built((r->Ok_0)->V2_0, cap as u64, fpp, opt)
    &&& r is Err && (version == 1 || version == 2) ==> r->Err_0 == Error::WrongFpp(fpp)
    &&& r is Err && !(version == 1 || version == 2) ==> r->Err_0 == Error::InvalidVersion(version)
}
/// st: the states gone through by inserting the first n of the keys, all accepted
pub open spec fn fill_path(st: Seq<BloomFilter>, keys: Seq<Seq<u8>>, n: int) -> bool {
    &&& st.len() == n + 1 && 0 <= n <= keys.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] st[i]).inserted(keys[i], &st[i + 1], Ok(true)) || st[i].inserted(keys[i], &st[i + 1], Ok(false))
}
pub open spec fn filled(o: BloomFilter, keys: Seq<Seq<u8>>, f: BloomFilter, r: Result<(), Error>) -> bool {
    exists|st: Seq<BloomFilter>, n: int| #[trigger] fill_path(st, keys, n) && st[0] == o && match r {
        Ok(_) => n == keys.len() && st[n] == f,
        Err(e) => n < keys.len() && st[n].inserted(keys[n], &f, Err(e)),
    }
}
pub open spec fn keys_of<S: AsRef<[u8]>>(d: Seq<S>) -> Seq<Seq<u8>> { Seq::new(d.len(), |i: int| d[i].as_ref_spec()@) }

@fn bloom::Params::new
ret r
ensures r.version == 2, r.capacity == capacity, r.fpp == fpp, r.opt is None

@fn bloom::Params::version
ret r
ensures r == (Params { version, ..self })

@fn bloom::Params::opt
ret r
ensures r == (Params { opt, ..self })

@fn bloom::Params::try_into_v1
ret r
requires v1::affordable(self.capacity as u64, self.fpp)
ensures (r is Ok <==> crate::fpp_ok(self.fpp)), r is Ok ==> v1::built(r->Ok_0, self.capacity as u64, self.fpp), r is Err ==> r->Err_0 == Error::WrongFpp(self.fpp)

@fn bloom::Params::try_into_v2
ret r
requires v2::affordable(self.capacity as u64, self.fpp, self.opt)
ensures (r is Ok <==> crate::fpp_ok(self.fpp)), r is Ok ==> v2::built(r->Ok_0, self.capacity as u64, self.fpp, self.opt), r is Err ==> r->Err_0 == Error::WrongFpp(self.fpp)

@implitem bloom::<BloomFilter as TryFrom>
open spec fn try_from_pre(t: Params) -> bool { affordable(t.version, t.capacity, t.fpp, t.opt) }
open spec fn try_from_ok(t: Params, r: Result<Self, Error>) -> bool { made(t.version, t.capacity, t.fpp, t.opt, r) }

@fn bloom::<BloomFilter as TryFrom>::try_from

@fn bloom::BloomFilter::with_version_capacity_opt
ret r
requires affordable(version, cap, fpp, opt)
ensures made(version, cap, fpp, opt, r)

@fn bloom::BloomFilter::with_version_capacity
ret r
requires affordable(version, cap, fpp, OptLevel::None)
ensures made(version, cap, fpp, OptLevel::None, r)

@fn bloom::BloomFilter::with_capacity
ret r
requires affordable(2, cap, fpp, OptLevel::None)
ensures made(2, cap, fpp, OptLevel::None, r)

@fn bloom::BloomFilter::fill
ret r
requires old(self).wf()
ensures filled(*old(self), keys_of(dataset@), *final(self), r)
@entry
let ghost vx_keys = keys_of(dataset@);
@loopbefore 0
let ghost mut vx_st = seq![*self]; let ghost mut vx_n: int = 0;
@loop 0
invariant $it.rest() == dataset@.skip(vx_n), fill_path(vx_st, vx_keys, vx_n), vx_st[0] == *old(self), vx_st[vx_n] == *self, self.wf()
decreases $it.rest().len()
@loopend 0
proof {
    let nx = vx_st.push(*self);
    assert forall|i: int| 0 <= i < vx_n + 1 implies (#[trigger] nx[i]).inserted(vx_keys[i], &nx[i + 1], Ok(true)) || nx[i].inserted(vx_keys[i], &nx[i + 1], Ok(false)) by {
        if i < vx_n { assert(vx_st[i].inserted(vx_keys[i], &vx_st[i + 1], Ok(true)) || vx_st[i].inserted(vx_keys[i], &vx_st[i + 1], Ok(false))); }
    }
    vx_st = nx; vx_n = vx_n + 1;
    assert(dataset@.skip(vx_n - 1).skip(1) =~= dataset@.skip(vx_n));
}

@fn bloom::BloomFilter::from_reader
ret res
ensures
    res is Ok ==> r.pos() <= r.stream().len() && (res->Ok_0).decodes(r.stream().skip(r.pos() as int), false),
    r.reliable() && r.pos() <= r.stream().len() && loadable(r.stream().skip(r.pos() as int)) ==> res is Ok
@entry
let ghost vx_s = r.stream(); let ghost vx_p = r.pos() as int;
proof {
    if vx_p + 8 <= vx_s.len() {
        assert(vx_s.skip(vx_p).subrange(0, 8) =~= vx_s.subrange(vx_p, vx_p + 8));
        assert(vx_s.skip(vx_p).skip(8) =~= vx_s.skip(vx_p + 8));
        assert(vx_s.skip(vx_p)[0] == vx_s[vx_p] && vx_s.skip(vx_p)[1] == vx_s[vx_p + 1]);
    }
}

@fn bloom::BloomFilter::partial_from_reader
ret res
ensures
    res is Ok ==> r.pos() <= r.stream().len() && (res->Ok_0).decodes(r.stream().skip(r.pos() as int), true),
    r.reliable() && r.pos() <= r.stream().len() && loadable(r.stream().skip(r.pos() as int)) ==> res is Ok
@entry
let ghost vx_s = r.stream(); let ghost vx_p = r.pos() as int;
proof {
    if vx_p + 8 <= vx_s.len() {
        assert(vx_s.skip(vx_p).subrange(0, 8) =~= vx_s.subrange(vx_p, vx_p + 8));
        assert(vx_s.skip(vx_p).skip(8) =~= vx_s.skip(vx_p + 8));
        assert(vx_s.skip(vx_p)[0] == vx_s[vx_p] && vx_s.skip(vx_p)[1] == vx_s[vx_p + 1]);
    }
}

@fn bloom::BloomFilter::insert_bytes
ret r
requires old(self).wf()
ensures old(self).inserted(data.as_ref_spec()@, &*final(self), r), final(self).wf()

@fn bloom::BloomFilter::contains_bytes
ret r
requires self.wf()
ensures r == self.member(data.as_ref_spec()@)

@fn bloom::BloomFilter::write
ret r
requires self.wf()
ensures
    r is Ok ==> (*final(w)).sink() == (*old(w)).sink() + self.ser(),
    (*old(w)).dependable() ==> r is Ok && (*final(w)).dependable(),
    (*final(w)).place() == (*old(w)).place()

@fn bloom::BloomFilter::version
ret r
ensures r == (match *self { BloomFilter::V1(_) => 1u8, BloomFilter::V2(_) => 2u8 })

@fn bloom::BloomFilter::has_same_params
ret r
ensures r == self.compatible(other)

@fn bloom::BloomFilter::union_merge
ret r
requires old(self).wf()
ensures
    r is Ok <==> old(self).compatible(other),
    r is Err ==> r->Err_0 is Merge && final(self).same_state(old(self)),
    r is Ok ==> old(self).united(other, &*final(self))

@fn bloom::BloomFilter::count_common_entries
ret r
requires self.wf()
ensures
    r is Ok <==> self.compatible(other),
    r is Err ==> r->Err_0 is Merge,
    r is Ok ==> r->Ok_0 == self.common(other)

@fn bloom::BloomFilter::capacity
ret r
ensures r == self.s_capacity()

@fn bloom::BloomFilter::clear
ensures old(self).cleared(&*final(self))

@fn bloom::BloomFilter::fpp
ret r
ensures r == self.s_fpp()

@fn bloom::BloomFilter::size_in_bytes
ret r
requires self.wf(), self is V1 ==> self->V1_0.bit_size <= 0x20_0000_0000_0000
ensures r == self.s_size()

@fn bloom::BloomFilter::count_estimate
ret r
ensures r == self.s_count()

@fn bloom::BloomFilter::is_full
ret r
ensures r == (self.s_count() >= self.s_capacity())

@fn bloom::BloomFilter::data
ret r
ensures r@ == self.s_data()
