@# Version 1 (DCSO compatible) filter

@mod bloom::v1
broadcast use {crate::vx::l_update_same, crate::vx::bits, crate::vx::floats};
/// h_j of the multiplicative sequence (published constants)
pub open spec fn fp_h(h0: u64, j: nat) -> u64 decreases j {
    if j == 0 { h0 } else { fp_h(h0, (j - 1) as nat).wrapping_mul(18446744073709550147) % 18446744073709551557 }
}
pub open spec fn fp_start(d: Seq<u8>) -> u64 { crate::fnv(14695981039346656037, d) % 18446744073709551557 }
/// j-th bit index (from 0) of key d in a filter of m bits
pub open spec fn idx(d: Seq<u8>, m: u64, j: nat) -> u64 { fp_h(fp_start(d), j + 1) % m }
/// position p is one of the first k indices of d
pub open spec fn touched(d: Seq<u8>, m: u64, k: nat, p: int) -> bool decreases k {
    if k == 0 { false } else { touched(d, m, (k - 1) as nat, p) || idx(d, m, (k - 1) as nat) == p }
}
/// the first k indices of d are set
pub open spec fn all_set(b: Seq<u64>, d: Seq<u8>, m: u64, k: nat) -> bool decreases k {
    if k == 0 { true } else { all_set(b, d, m, (k - 1) as nat) && bit64(b, idx(d, m, (k - 1) as nat) as int) }
}
pub proof fn lemma_all_set_mono(a: Seq<u64>, b: Seq<u64>, d: Seq<u8>, m: u64, k: nat)
    requires forall|p: int| 0 <= p < m && bit64(a, p) ==> #[trigger] bit64(b, p), all_set(a, d, m, k), m > 0
    ensures all_set(b, d, m, k)
    decreases k
{
    if k > 0 { lemma_all_set_mono(a, b, d, m, (k - 1) as nat); let i = idx(d, m, (k - 1) as nat); assert(0 <= i < m); assert(bit64(a, i as int)); }
}
pub broadcast proof fn lemma_all_set_down(b: Seq<u64>, d: Seq<u8>, m: u64, k: nat, n: nat)
    requires k <= n, #[trigger] all_set(b, d, m, n)
    ensures #[trigger] all_set(b, d, m, k)
    decreases n
{
    if k < n { lemma_all_set_down(b, d, m, k, (n - 1) as nat); }
}
pub proof fn lemma_touched_set(b: Seq<u64>, d: Seq<u8>, m: u64, k: nat, n: nat)
    requires forall|p: int| 0 <= p < m && touched(d, m, n, p) ==> #[trigger] bit64(b, p), k <= n, m > 0
    ensures all_set(b, d, m, k)
    decreases k
{
    if k > 0 {
        lemma_touched_set(b, d, m, (k - 1) as nat, n);
        let i = idx(d, m, (k - 1) as nat);
        lemma_touched(d, m, n, (k - 1) as nat);
        assert(0 <= i < m); assert(bit64(b, i as int));
    }
}
pub proof fn lemma_touched(d: Seq<u8>, m: u64, n: nat, j: nat)
    requires j < n ensures touched(d, m, n, idx(d, m, j) as int)
    decreases n
{
    if j + 1 < n { lemma_touched(d, m, (n - 1) as nat, j); }
}
/// equal bits, equal words
pub proof fn l64_ext(a: u64, b: u64)
    requires forall|k: u32| k < 64 ==> tb64(a, k) == tb64(b, k)
    ensures a == b
{
    if a != b {
        let x = a ^ b;
        assert(x != 0) by (bit_vector) requires x == a ^ b, a != b;
        lemma_low_bit(x);
        let k = choose|k: u32| k < 64 && tb64(x, k);
        assert((x & (1u64 << k) != 0) == ((a & (1u64 << k) != 0) != (b & (1u64 << k) != 0))) by (bit_vector) requires x == a ^ b, k < 64;
        assert(tb64(a, k) == tb64(b, k));
    }
}
pub proof fn lemma_low_bit(x: u64) requires x != 0 ensures exists|k: u32| k < 64 && tb64(x, k) {
    if forall|k: u32| k < 64 ==> !tb64(x, k) { lemma_low(x, 64); assert(x == 0) by (bit_vector) requires x & 0xffff_ffff_ffff_ffffu64 == 0; }
}
pub open spec fn low_mask(k: u32) -> u64 { if k >= 64 { 0xffff_ffff_ffff_ffff } else { sub(1u64 << k, 1) } }
pub proof fn lemma_low(x: u64, k: u32)
    requires forall|j: u32| j < 64 ==> !tb64(x, j), k <= 64
    ensures x & low_mask(k) == 0
    decreases k
{
    if k == 0 { assert(x & sub(1u64 << 0u32, 1) == 0) by (bit_vector); }
    else {
        let j = (k - 1) as u32;
        lemma_low(x, j);
        assert(!tb64(x, j));
        if k == 64 { assert(x & 0xffff_ffff_ffff_ffffu64 == 0) by (bit_vector) requires x & sub(1u64 << 63u32, 1) == 0, x & (1u64 << 63u32) == 0; }
        else { assert(x & sub(1u64 << k, 1) == 0) by (bit_vector) requires x & sub(1u64 << j, 1) == 0, x & (1u64 << j) == 0, k == add(j, 1), k < 64; }
    }
}
/// little-endian dump of words
pub open spec fn ser64(s: Seq<u64>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ser64(s.drop_last()) + le64(s.last()) }
}
pub proof fn lemma_ser64(s: Seq<u64>)
    ensures ser64(s).len() == 8 * s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] ser64(s).subrange(8 * i, 8 * i + 8) == le64(s[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ser64(s.drop_last());
        let t = ser64(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] ser64(s).subrange(8 * i, 8 * i + 8) == le64(s[i]) by {
            if i < s.len() - 1 { assert(t.subrange(8 * i, 8 * i + 8) == le64(s.drop_last()[i])); assert(ser64(s).subrange(8 * i, 8 * i + 8) =~= t.subrange(8 * i, 8 * i + 8)); }
            else { assert(ser64(s).subrange(8 * i, 8 * i + 8) =~= le64(s.last())); }
        }
    }
}
pub open spec fn nblocks(bits: u64) -> int { (bits as int + 63) / 64 }
impl BloomFilter {
    /// representation invariant
    pub open spec fn wf(&self) -> bool {
        &&& self.fingerprint.m == self.bit_size
        &&& self.fingerprint.count == self.n_hash
        &&& self.bitset@.len() == 0 || (self.bit_size <= 0x20_0000_0000_0000 && self.bitset@.len() == nblocks(self.bit_size))
    }
    /// what contains_bytes must answer
    pub open spec fn member(&self, d: Seq<u8>) -> bool { self.bitset@.len() > 0 && all_set(self.bitset@, d, self.bit_size, self.n_hash as nat) }
    pub open spec fn same_params(&self, o: &Self) -> bool {
        self.flags == o.flags && self.capacity == o.capacity && self.fpp == o.fpp && self.n_hash == o.n_hash && self.bit_size == o.bit_size
            && self.bitset@.len() == o.bitset@.len() && self.fingerprint.m == o.fingerprint.m && self.fingerprint.count == o.fingerprint.count && self.data@ == o.data@
    }
    pub open spec fn compatible(&self, o: &Self) -> bool {
        self.flags == o.flags && self.capacity == o.capacity && s_feq(self.fpp, o.fpp) && self.n_hash == o.n_hash && self.bit_size == o.bit_size
            && self.bitset@.len() == o.bitset@.len()
    }
    /// the file format, after the flags
    pub open spec fn ser_tail(&self) -> Seq<u8> {
        le64(self.capacity) + le64(f_bits(self.fpp)) + le64(self.n_hash) + le64(self.bit_size) + le64(self.count) + ser64(self.bitset@) + self.data@
    }
    pub open spec fn ser(&self) -> Seq<u8> { self.flags.bytes() + self.ser_tail() }
    /// self is what the bytes s (after the flags) decode to
    pub open spec fn decodes(&self, s: Seq<u8>, partial: bool) -> bool {
        let n = nblocks(self.bit_size);
        &&& s.len() >= 40 + 8 * n
        &&& self.bit_size <= 0x20_0000_0000_0000
        &&& self.capacity == crate::word(s, 0) && self.fpp == f_of(crate::word(s, 1)) && self.n_hash == crate::word(s, 2)
        &&& self.bit_size == crate::word(s, 3) && self.count == crate::word(s, 4)
        &&& partial ==> self.bitset@.len() == 0
        &&& !partial ==> self.bitset@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] self.bitset@[i] == crate::word(s, 5 + i)
        &&& self.data@ == s.skip(40 + 8 * n)
    }
}
pub open spec fn loadable(s: Seq<u8>) -> bool {
    s.len() >= 40 && crate::word(s, 3) <= 0x20_0000_0000_0000 && s.len() >= 40 + 8 * nblocks(crate::word(s, 3))
}
pub open spec fn est(bits: u64, ones: u64, k: u64) -> f64 {
    s_fdiv(s_fneg(s_fmul(s_u2f(bits), s_fln(s_fsub(crate::one(), s_fdiv(s_u2f(ones), s_u2f(bits)))))), s_u2f(k))
}

@fn bloom::v1::Fingerprint::new
ret r
ensures r.m == modulo, r.count == count, r.i == 0

@fn bloom::v1::Fingerprint::fingerprint
ret r
ensures r.m == self.m, r.count == self.count, r.i == 0, r.h == fp_start(data.as_ref_spec()@)

@fn bloom::v1::<Fingerprint as Iterator>::next
ret r
requires old(self).i < old(self).count ==> old(self).m > 0
ensures
    final(self).m == old(self).m, final(self).count == old(self).count,
    old(self).i < old(self).count ==> final(self).i == old(self).i + 1 && final(self).h == old(self).h.wrapping_mul(18446744073709550147) % 18446744073709551557 && r == Some((final(self).h % old(self).m) as u64),
    old(self).i >= old(self).count ==> *final(self) == *old(self) && r is None

@fn bloom::v1::BloomFilter::get_nth_bit
ret r
requires index < 64 * self.bitset@.len()
ensures r == bit64(self.bitset@, index as int)

@mod bloom::v1
impl BloomFilter {
    pub open spec fn usable(&self) -> bool { self.capacity > 0 && self.bitset@.len() > 0 }
    pub open spec fn same_state(&self, o: &Self) -> bool { self.same_params(o) && self.bitset@ == o.bitset@ && self.count == o.count }
    /// effect of inserting the key d into self, giving f and answer r
    pub open spec fn inserted(&self, d: Seq<u8>, f: &Self, r: Result<bool, crate::bloom::Error>) -> bool {
        &&& f.same_params(self) && f.wf()
        &&& r is Ok <==> self.usable() && (self.member(d) || self.count < self.capacity)
        &&& r is Err ==> r->Err_0 is TooManyEntries && f.same_state(self)
        &&& r is Ok ==> {
            &&& f.member(d)
            &&& r->Ok_0 == !self.member(d)
            &&& f.count == self.count + b2n(r->Ok_0)
            &&& forall|p: int| 0 <= p < 64 * self.bitset@.len() ==> #[trigger] bit64(f.bitset@, p) == (bit64(self.bitset@, p) || touched(d, self.bit_size, self.n_hash as nat, p))
        }
    }
    /// effect of merging o into self, giving f
    pub open spec fn united(&self, o: &Self, f: &Self) -> bool {
        &&& f.same_params(self) && (self.wf() ==> f.wf())
        &&& f.bitset@ == or64(self.bitset@, o.bitset@)
        &&& f.count == s_f2u(est(self.bit_size, ones64(f.bitset@) as u64, self.n_hash))
    }
    pub open spec fn cleared(&self, f: &Self) -> bool {
        f.same_params(self) && (self.wf() ==> f.wf()) && f.count == 0 && f.bitset@ == zeros64(self.bitset@.len())
    }
    pub open spec fn common(&self, o: &Self) -> u64 { s_f2u(est(self.bit_size, ones64(and64(self.bitset@, o.bitset@)) as u64, self.n_hash)) }
    pub open spec fn size(&self) -> int { 8 * nblocks(self.bit_size) }
}

@fn bloom::v1::BloomFilter::insert_bytes
ret r
requires old(self).wf()
ensures old(self).inserted(value.as_ref_spec()@, &*final(self), r)
@entry
let ghost d = value.as_ref_spec()@;
hide(vstd::wrapping::u64_specs::wrapping_mul);
@loop 0
invariant $it.m == self.bit_size, $it.count == self.n_hash, $it.i <= self.n_hash, $it.h == fp_h(fp_start(d), $it.i as nat),
    self.same_params(old(self)), self.count == old(self).count, self.capacity > 0, self.bitset@.len() > 0,
    forall|p: int| 0 <= p < 64 * self.bitset@.len() ==> #[trigger] bit64(self.bitset@, p) == (bit64(old(self).bitset@, p) || touched(d, self.bit_size, $it.i as nat, p)),
    new == !all_set(old(self).bitset@, d, self.bit_size, $it.i as nat),
    !new ==> self.bitset@ == old(self).bitset@,
    new ==> self.count < self.capacity,
decreases self.n_hash - $it.i
@loopstart 0
broadcast use lemma_all_set_down;
let ghost vx_k = $it.i as nat; let ghost vx_b = self.bitset@;
proof {
    assert(all_set(old(self).bitset@, d, self.bit_size, vx_k + 1) == (all_set(old(self).bitset@, d, self.bit_size, vx_k) && bit64(old(self).bitset@, idx(d, self.bit_size, vx_k) as int)));
    if vx_k < self.n_hash { assert(idx(d, self.bit_size, vx_k) < self.bit_size); }
}
@loopend 0
proof {
    let i = idx(d, self.bit_size, vx_k) as int;
    assert forall|p: int| 0 <= p < 64 * self.bitset@.len() implies #[trigger] bit64(self.bitset@, p) == (bit64(old(self).bitset@, p) || touched(d, self.bit_size, vx_k + 1, p)) by {
        assert(bit64(vx_b, p) == (bit64(old(self).bitset@, p) || touched(d, self.bit_size, vx_k, p)));
        assert(bit64(self.bitset@, p) == (bit64(vx_b, p) || p == i));
    }
}
@loopafter 0
proof { lemma_touched_set(self.bitset@, d, self.bit_size, self.n_hash as nat, self.n_hash as nat); }

@fn bloom::v1::BloomFilter::contains_bytes
ret r
requires self.wf()
ensures r == self.member(value.as_ref_spec()@)
@entry
let ghost d = value.as_ref_spec()@;
hide(vstd::wrapping::u64_specs::wrapping_mul);
@loop 0
invariant $it.m == self.bit_size, $it.count == self.n_hash, $it.i <= self.n_hash, $it.h == fp_h(fp_start(d), $it.i as nat),
    all_set(self.bitset@, d, self.bit_size, $it.i as nat),
decreases self.n_hash - $it.i
@loopstart 0
broadcast use lemma_all_set_down;
let ghost vx_k = $it.i as nat;
proof {
    assert(all_set(self.bitset@, d, self.bit_size, vx_k + 1) == (all_set(self.bitset@, d, self.bit_size, vx_k) && bit64(self.bitset@, idx(d, self.bit_size, vx_k) as int)));
    if vx_k < self.n_hash { assert(idx(d, self.bit_size, vx_k) < self.bit_size); }
}

@fn bloom::v1::BloomFilter::clear
ensures old(self).cleared(&*final(self))
@loop 0
invariant self.bitset@.len() == old(self).bitset@.len(), forall|k: int| 0 <= k < $i ==> self.bitset@[k] == 0u64, self.same_params(old(self))
@loopafter 0
assert(self.bitset@ =~= zeros64(old(self).bitset@.len()));

@fn bloom::v1::BloomFilter::count_ones
ret r
requires self.bitset@.len() <= 0x8000_0000_0000
ensures r == ones64(self.bitset@), r <= 64 * self.bitset@.len()
@loop 0
invariant $acc == ones64(self.bitset@.take($i as int)), $acc <= 64 * $i
@loopstart 0
assert(ones64(self.bitset@.take($j as int + 1)) == ones64(self.bitset@.take($j as int)) + pop64(self.bitset@[$j as int])) by { broadcast use lemma_ones64_push; }
@loopafter 0
assert(self.bitset@.take(self.bitset@.len() as int) =~= self.bitset@);

@fn bloom::v1::BloomFilter::count_zeros
ret r
requires self.bitset@.len() <= 0x8000_0000_0000
ensures r == 64 * self.bitset@.len() - ones64(self.bitset@)
@loop 0
invariant $acc == 64 * $i - ones64(self.bitset@.take($i as int)), $acc <= 64 * $i
@loopstart 0
assert(ones64(self.bitset@.take($j as int + 1)) == ones64(self.bitset@.take($j as int)) + pop64(self.bitset@[$j as int])) by { broadcast use lemma_ones64_push; }
@loopafter 0
assert(self.bitset@.take(self.bitset@.len() as int) =~= self.bitset@);

@fn bloom::v1::BloomFilter::bits
ret r
requires self.bit_size <= 64 * self.bitset@.len()
ensures r@.len() == self.bit_size, forall|i: int| 0 <= i < self.bit_size ==> #[trigger] r@[i] == bit64(self.bitset@, i)
@loop 0
invariant $acc@.len() == $i, forall|i: int| 0 <= i < $i ==> #[trigger] $acc@[i] == bit64(self.bitset@, i)

@fn bloom::v1::BloomFilter::update_count
requires old(self).bitset@.len() <= 0x8000_0000_0000
ensures final(self).same_params(old(self)), final(self).bitset == old(self).bitset,
    /*formula*/ final(self).count == s_f2u(est(old(self).bit_size, ones64(old(self).bitset@) as u64, old(self).n_hash))

@fn bloom::v1::BloomFilter::count_estimate
ret r
ensures r == self.count

@fn bloom::v1::BloomFilter::n_hash_fn
ret r
ensures r == self.n_hash

@fn bloom::v1::BloomFilter::n_bits
ret r
ensures r == self.bit_size

@fn bloom::v1::BloomFilter::size_in_u64
ret r
ensures /*formula*/ self.bit_size <= 0x20_0000_0000_0000 ==> r == nblocks(self.bit_size)

@fn bloom::v1::BloomFilter::size_in_bytes
ret r
requires self.bit_size <= 0x20_0000_0000_0000
ensures r == 8 * nblocks(self.bit_size), self.wf() && self.bitset@.len() > 0 ==> r == 8 * self.bitset@.len()

@fn bloom::v1::BloomFilter::fpp
ret r
ensures r == self.fpp

@fn bloom::v1::BloomFilter::capacity
ret r
ensures r == self.capacity

@fn bloom::v1::BloomFilter::is_full
ret r
ensures r == (self.count >= self.capacity)

@fn bloom::v1::BloomFilter::has_same_params
ret r
ensures r == self.compatible(other)

@fn bloom::v1::BloomFilter::count_ones_in_common
ret r
requires self.bitset@.len() == other.bitset@.len(), self.bitset@.len() <= 0x8000_0000_0000
ensures r == ones64(and64(self.bitset@, other.bitset@)), r <= 64 * self.bitset@.len()
@loop 0
invariant $acc == ones64(and64(self.bitset@, other.bitset@).take($i as int)), $acc <= 64 * $i
@loopstart 0
assert(ones64(and64(self.bitset@, other.bitset@).take($j as int + 1)) == ones64(and64(self.bitset@, other.bitset@).take($j as int)) + pop64(and64(self.bitset@, other.bitset@)[$j as int])) by { broadcast use lemma_ones64_push; }
@loopafter 0
assert(and64(self.bitset@, other.bitset@).take(self.bitset@.len() as int) =~= and64(self.bitset@, other.bitset@));

@fn bloom::v1::BloomFilter::count_common_entries
ret r
requires self.bitset@.len() <= 0x8000_0000_0000
ensures
    r is Ok <==> self.compatible(other),
    r is Err ==> r->Err_0 is Merge,
    /*formula*/ r is Ok ==> r->Ok_0 == self.common(other)

@fn bloom::v1::BloomFilter::union_merge
ret r
requires old(self).bitset@.len() <= 0x8000_0000_0000
ensures
    r is Ok <==> old(self).compatible(other),
    r is Err ==> r->Err_0 is Merge && *final(self) == *old(self),
    r is Ok ==> old(self).united(other, &*final(self))
@loop 0
invariant self.same_params(old(self)), self.count == old(self).count,
    forall|k: int| 0 <= k < $i ==> self.bitset@[k] == old(self).bitset@[k] | other.bitset@[k],
    forall|k: int| $i <= k < self.bitset@.len() ==> self.bitset@[k] == old(self).bitset@[k]
@loopafter 0
assert(self.bitset@ =~= or64(old(self).bitset@, other.bitset@));

@fn bloom::v1::BloomFilter::estimated_p
ret r
ensures /*formula*/ r == crate::bloom::utils::estimate_p_spec(self.count, self.bit_size)

@mod bloom::v1
/// the request fits in memory
pub open spec fn affordable(cap: u64, fpp: f64) -> bool { crate::fpp_ok(fpp) ==> crate::bloom::utils::bit_size_spec(cap, fpp) <= 0x20_0000_0000_0000 }
pub open spec fn sized(cap: u64, fpp: f64) -> u64 { let b = crate::bloom::utils::bit_size_spec(cap, fpp); if cap > 0 && b == 0 { 1 } else { b } }
pub open spec fn built(b: BloomFilter, cap: u64, fpp: f64) -> bool {
    &&& b.wf() && b.capacity == cap && b.fpp == fpp && b.count == 0 && b.data@.len() == 0
    &&& b.flags.bytes() == seq![1u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8]
    &&& b.bit_size == sized(cap, fpp)
    &&& b.bitset@ == zeros64(nblocks(b.bit_size) as nat)
    &&& b.n_hash == crate::bloom::utils::k_spec(b.bit_size, cap)
}

@mod bloom::v1
/// the part of `built` that no formula is needed for
pub open spec fn empty_for(b: BloomFilter, cap: u64, fpp: f64) -> bool {
    &&& b.capacity == cap && b.fpp == fpp && b.count == 0 && b.data@.len() == 0
    &&& b.flags.bytes() == seq![1u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8]
    &&& forall|i: int| 0 <= i < b.bitset@.len() ==> #[trigger] b.bitset@[i] == 0
}

@fn bloom::v1::BloomFilter::with_capacity
ret r
requires affordable(cap, fpp)
ensures
    r is Ok <==> crate::fpp_ok(fpp),
    r is Ok ==> empty_for(r->Ok_0, cap, fpp),
    /*formula*/ r is Ok ==> built(r->Ok_0, cap, fpp),
    r is Err ==> r->Err_0 == crate::bloom::Error::WrongFpp(fpp)
@entry
assert(forall|n: nat| #[trigger] zeros64(n) == Seq::new(n, |i: int| 0u64));

@implitem bloom::v1::<BloomFilter as TryFrom>
open spec fn try_from_pre(t: Params) -> bool { affordable(t.capacity as u64, t.fpp) }
open spec fn try_from_ok(t: Params, r: Result<Self, Error>) -> bool { (r is Ok <==> crate::fpp_ok(t.fpp)) && (r is Ok ==> built(r->Ok_0, t.capacity as u64, t.fpp)) && (r is Err ==> r->Err_0 == crate::bloom::Error::WrongFpp(t.fpp)) }

@fn bloom::v1::<BloomFilter as TryFrom>::try_from

@fn bloom::v1::BloomFilter::write
ret r
ensures
    r is Ok ==> (*final(w)).sink() == (*old(w)).sink() + self.ser(),
    (*old(w)).dependable() ==> r is Ok && (*final(w)).dependable(),
    (*final(w)).place() == (*old(w)).place()
@loop 0
invariant w.inner.sink() + w.pending@ == vx_sink0 + ser64(self.bitset@.take($i as int)), (vx_dep0 ==> w.inner.dependable()), w.inner.place() == vx_place0, *final(w.inner) == vx_end0
@loopbefore 0
let ghost vx_sink0 = w.inner.sink() + w.pending@; let ghost vx_dep0 = w.inner.dependable(); let ghost vx_place0 = w.inner.place(); let ghost vx_end0 = *final(w.inner);
@loopstart 0
assert(self.bitset@.take($j as int + 1).drop_last() =~= self.bitset@.take($j as int));
@loopafter 0
assert(self.bitset@.take(self.bitset@.len() as int) =~= self.bitset@);

@fn bloom::v1::BloomFilter::from_reader_with_flags
ret res
ensures
    res is Ok ==> r.pos() <= r.stream().len() && (res->Ok_0).wf() && (res->Ok_0).flags == flags && (res->Ok_0).decodes(r.stream().skip(r.pos() as int), partial),
    r.reliable() && r.pos() <= r.stream().len() && loadable(r.stream().skip(r.pos() as int)) ==> res is Ok
@entry
let ghost s0 = r.stream(); let ghost p0 = r.pos() as int; let ghost rest = s0.skip(p0);
proof {
    crate::vx::io::ax_stream_len(&r);
    if p0 + 40 <= s0.len() {
        assert(rest.subrange(0, 8) =~= s0.subrange(p0, p0 + 8));
        assert(rest.subrange(8, 16) =~= s0.subrange(p0 + 8, p0 + 16));
        assert(rest.subrange(16, 24) =~= s0.subrange(p0 + 16, p0 + 24));
        assert(rest.subrange(24, 32) =~= s0.subrange(p0 + 24, p0 + 32));
        assert(rest.subrange(32, 40) =~= s0.subrange(p0 + 32, p0 + 40));
    }
    assert forall|k: int| p0 <= s0.len() && 0 <= k <= rest.len() implies #[trigger] rest.skip(k) == s0.skip(p0 + k) by { assert(rest.skip(k) =~= s0.skip(p0 + k)); }
}
@loop 0
invariant r.stream() == s0, r.reliable() == vx_rel, r.pos() == p0 + 40 + 8 * $i, bitset@.len() == (if vx_b.len() == 0 { $i as nat } else { u64_size as nat }),
    forall|k: int| 0 <= k < $i ==> #[trigger] bitset@[k] == crate::word(rest, 5 + k)
@loopbefore 0
let ghost vx_rel = r.reliable(); let ghost vx_b: Seq<u64> = bitset@;
@loopstart 0
assert(rest.subrange(8 * (5 + $j), 8 * (5 + $j) + 8) =~= s0.subrange(p0 + 40 + 8 * $j, p0 + 48 + 8 * $j));

@fn bloom::v1::BloomFilter::_from_reader
ret res
ensures
    res is Ok ==> r.pos() + 8 <= r.stream().len() && (res->Ok_0).wf() && r.stream()[r.pos() as int] == 1
        && (res->Ok_0).flags.bytes() == r.stream().subrange(r.pos() as int, (r.pos() + 8) as int) && (res->Ok_0).decodes(r.stream().skip((r.pos() + 8) as int), partial),
    r.reliable() && r.pos() + 8 <= r.stream().len() && r.stream()[r.pos() as int] == 1 && r.stream()[(r.pos() + 1) as int] <= 3 && loadable(r.stream().skip((r.pos() + 8) as int)) ==> res is Ok

@fn bloom::v1::BloomFilter::from_reader
ret res
ensures
    res is Ok ==> r.pos() + 8 <= r.stream().len() && (res->Ok_0).wf() && r.stream()[r.pos() as int] == 1
        && (res->Ok_0).flags.bytes() == r.stream().subrange(r.pos() as int, (r.pos() + 8) as int) && (res->Ok_0).decodes(r.stream().skip((r.pos() + 8) as int), false),
    r.reliable() && r.pos() + 8 <= r.stream().len() && r.stream()[r.pos() as int] == 1 && r.stream()[(r.pos() + 1) as int] <= 3 && loadable(r.stream().skip((r.pos() + 8) as int)) ==> res is Ok
