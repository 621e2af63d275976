@# Version 2 filter

@sizeof Bucket BUCKET_SIZE

@mod bloom::v2
broadcast use {crate::vx::bits, crate::vx::floats, crate::vx::ax_array_as_ref, crate::vx::l_pow2_mask, crate::vx::l_empty_add};
/// (h1, h2) after j steps of the double hashing sequence started at h0
pub open spec fn st<H: PoppyHasher>(h0: u64, j: nat) -> (u64, u64) decreases j {
    if j <= 1 { (h0, 0) } else {
        let (a, b0) = st::<H>(h0, (j - 1) as nat);
        let b = if j == 2 { crate::hash_bytes::<H>(be64(a)) } else { b0 };
        (a.wrapping_add(b), b.wrapping_add((j - 1) as u64))
    }
}
/// j-th index (from 0) in a bucket of m bits
pub open spec fn idx<H: PoppyHasher>(h0: u64, m: u64, j: nat) -> u64 { st::<H>(h0, j + 1).0 % m }
pub open spec fn xs(s: u64) -> u64 {
    let a = s ^ (s << 12u64); let b = a ^ (a >> 25u64); let c = b ^ (b << 27u64);
    c.wrapping_mul(2685821657736338717)
}
pub open spec fn touched(h0: u64, k: nat, p: int) -> bool decreases k {
    if k == 0 { false } else { touched(h0, (k - 1) as nat, p) || idx::<WyHasher>(h0, 32768, (k - 1) as nat) == p }
}
pub open spec fn all_set(b: Seq<u8>, h0: u64, k: nat) -> bool decreases k {
    if k == 0 { true } else { all_set(b, h0, (k - 1) as nat) && bit(b, idx::<WyHasher>(h0, 32768, (k - 1) as nat) as int) }
}
pub broadcast proof fn lemma_all_set_down(b: Seq<u8>, h0: u64, k: nat, n: nat)
    requires k <= n, #[trigger] all_set(b, h0, n)
    ensures #[trigger] all_set(b, h0, k)
    decreases n
{
    if k < n { lemma_all_set_down(b, h0, k, (n - 1) as nat); }
}
pub proof fn lemma_all_set_mono(a: Seq<u8>, b: Seq<u8>, h0: u64, k: nat)
    requires forall|p: int| 0 <= p < 32768 && bit(a, p) ==> #[trigger] bit(b, p), all_set(a, h0, k)
    ensures all_set(b, h0, k)
    decreases k
{
    if k > 0 { lemma_all_set_mono(a, b, h0, (k - 1) as nat); let i = idx::<WyHasher>(h0, 32768, (k - 1) as nat); assert(0 <= i < 32768); assert(bit(a, i as int)); }
}
pub proof fn lemma_all_set_both(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, h0: u64, k: nat)
    requires forall|p: int| 0 <= p < 32768 && bit(a, p) && bit(b, p) ==> #[trigger] bit(c, p), all_set(a, h0, k), all_set(b, h0, k)
    ensures all_set(c, h0, k)
    decreases k
{
    if k > 0 { lemma_all_set_both(a, b, c, h0, (k - 1) as nat); let i = idx::<WyHasher>(h0, 32768, (k - 1) as nat); assert(0 <= i < 32768); assert(bit(a, i as int) && bit(b, i as int)); }
}
pub proof fn lemma_touched(h0: u64, n: nat, j: nat)
    requires j < n ensures touched(h0, n, idx::<WyHasher>(h0, 32768, j) as int)
    decreases n
{
    if j + 1 < n { lemma_touched(h0, (n - 1) as nat, j); }
}
pub proof fn lemma_touched_set(b: Seq<u8>, h0: u64, k: nat, n: nat)
    requires forall|p: int| 0 <= p < 32768 && touched(h0, n, p) ==> #[trigger] bit(b, p), k <= n
    ensures all_set(b, h0, k)
    decreases k
{
    if k > 0 {
        lemma_touched_set(b, h0, (k - 1) as nat, n);
        let i = idx::<WyHasher>(h0, 32768, (k - 1) as nat);
        lemma_touched(h0, n, (k - 1) as nat);
        assert(0 <= i < 32768); assert(bit(b, i as int));
    }
}
pub proof fn lemma_all_touched(b: Seq<u8>, h0: u64, k: nat, p: int)
    requires all_set(b, h0, k), touched(h0, k, p)
    ensures bit(b, p)
    decreases k
{
    if k > 0 && !(idx::<WyHasher>(h0, 32768, (k - 1) as nat) == p) { lemma_all_touched(b, h0, (k - 1) as nat, p); }
}
/// same length and same bits: same bytes
pub proof fn lemma_bits_ext(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|p: int| 0 <= p < 8 * a.len() ==> #[trigger] bit(a, p) == bit(b, p)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert forall|k: usize| k < 8 implies tb8(a[i], k) == tb8(b[i], k) by {
            let p = 8 * i + k;
            assert(p / 8 == i && p % 8 == k);
            assert(bit(a, p) == bit(b, p));
        }
        l8_ext(a[i], b[i]);
    }
    assert(a =~= b);
}
pub open spec fn bucket_of(h0: u64, n: nat) -> int { xs(h0) as int % n as int }
pub open spec fn cache_bit(h0: u64, len: nat) -> int { (xs(h0) as usize & ((8 * len - 1) as usize)) as int }
pub open spec fn ser_buckets(s: Seq<Bucket>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ser_buckets(s.drop_last()) + s.last().b() }
}
pub proof fn lemma_ser_buckets(s: Seq<Bucket>)
    ensures ser_buckets(s).len() == 4096 * s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] ser_buckets(s).subrange(4096 * i, 4096 * i + 4096) == s[i].b()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ser_buckets(s.drop_last());
        let t = ser_buckets(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] ser_buckets(s).subrange(4096 * i, 4096 * i + 4096) == s[i].b() by {
            if i < s.len() - 1 { assert(t.subrange(4096 * i, 4096 * i + 4096) == s.drop_last()[i].b()); assert(ser_buckets(s).subrange(4096 * i, 4096 * i + 4096) =~= t.subrange(4096 * i, 4096 * i + 4096)); }
            else { assert(ser_buckets(s).subrange(4096 * i, 4096 * i + 4096) =~= s.last().b()); }
        }
    }
}
pub open spec fn sat_add(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
/// summed, saturating per-bucket estimate
pub open spec fn est_sum(o: Seq<nat>, k: u64) -> u64 decreases o.len() {
    if o.len() == 0 { 0 } else { sat_add(est_sum(o.drop_last(), k), s_f2u(crate::bloom::v1::est(32768, o.last() as u64, k))) }
}
pub open spec fn ones_of(b: Seq<Bucket>) -> Seq<nat> { Seq::new(b.len(), |i: int| ones(b[i].b())) }
pub open spec fn ones_common(a: Seq<Bucket>, b: Seq<Bucket>) -> Seq<nat> { Seq::new(a.len(), |i: int| ones(and8(a[i].b(), b[i].b()))) }
pub open spec fn sum_ones(b: Seq<Bucket>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { sum_ones(b.drop_last()) + ones(b.last().b()) } }
pub open spec fn is_npow2(x: u64, r: u64) -> bool { r >= x && r >= 1 && r & ((r - 1) as u64) == 0 && (x >= 2 ==> r < 2 * x) && (x < 2 ==> r == 1) }

impl<H: PoppyHasher, const M: u64> IndexIterator<H, M> {
    pub open spec fn ready(&self) -> bool { self.init && self.i == 0 }
    /// the iterator is i steps into the sequence of h0
    pub open spec fn at(&self, h0: u64) -> bool {
        self.h1 == st::<H>(h0, self.i as nat).0 && (self.i >= 2 ==> self.h2 == st::<H>(h0, self.i as nat).1)
    }
}
impl BloomFilter {
    pub open spec fn cache(&self) -> Seq<u8> { self.index_cache.b() }
    pub open spec fn wf(&self) -> bool {
        &&& self.n_buckets <= 0x40_0000_0000
        &&& self.cache_byte_size <= 0x4_0000_0000_0000
        &&& (self.buckets@.len() == self.n_buckets && self.cache().len() == self.cache_byte_size) || (self.buckets@.len() == 0 && self.cache().len() == 0)
    }
    pub open spec fn bucket(&self, h0: u64) -> Seq<u8> { self.buckets@[bucket_of(h0, self.buckets@.len())].b() }
    /// membership bits of a key with hash h0 are all set
    pub open spec fn bits_set(&self, h0: u64) -> bool { all_set(self.bucket(h0), h0, self.n_hash_buck as nat) }
    pub open spec fn cache_hit(&self, h0: u64) -> bool { self.cache().len() == 0 || bit(self.cache(), cache_bit(h0, self.cache().len())) }
    pub open spec fn usable(&self) -> bool { self.capacity > 0 && self.buckets@.len() > 0 }
    /// what a query must answer
    pub open spec fn member(&self, h0: u64) -> bool { self.usable() && self.cache_hit(h0) && self.bits_set(h0) }
    pub open spec fn same_params(&self, o: &Self) -> bool {
        self.flags == o.flags && self.n_buckets == o.n_buckets && self.cache_byte_size == o.cache_byte_size && self.capacity == o.capacity && self.fpp == o.fpp
            && self.n_hash_buck == o.n_hash_buck && self.data@ == o.data@ && self.buckets@.len() == o.buckets@.len() && self.cache().len() == o.cache().len()
    }
    pub open spec fn same_bits(&self, o: &Self) -> bool {
        self.cache() == o.cache() && self.buckets@.len() == o.buckets@.len() && forall|i: int| 0 <= i < self.buckets@.len() ==> #[trigger] self.buckets@[i].b() == o.buckets@[i].b()
    }
    pub open spec fn same_state(&self, o: &Self) -> bool { self.same_params(o) && self.same_bits(o) && self.count == o.count }
    pub open spec fn compatible(&self, o: &Self) -> bool {
        self.flags == o.flags && self.capacity == o.capacity && self.cache().len() == o.cache().len() && s_feq(self.fpp, o.fpp) && self.n_hash_buck == o.n_hash_buck
            && self.buckets@.len() == o.buckets@.len()
    }
    /// effect of inserting a key with hash h0 into self, giving f and answer r
    pub open spec fn inserted(&self, h0: u64, f: &Self, r: Result<bool, crate::bloom::Error>) -> bool {
        &&& f.same_params(self) && f.wf()
        &&& r is Ok <==> self.usable() && (self.bits_set(h0) || self.count < self.capacity)
        &&& r is Err ==> r->Err_0 is TooManyEntries && f.same_state(self)
        &&& r is Ok ==> {
            &&& f.member(h0)
            &&& r->Ok_0 == !self.bits_set(h0)
            &&& f.count == self.count + b2n(r->Ok_0)
            &&& forall|p: int| 0 <= p < 32768 ==> #[trigger] bit(f.bucket(h0), p) == (bit(self.bucket(h0), p) || touched(h0, self.n_hash_buck as nat, p))
            &&& forall|i: int| 0 <= i < self.buckets@.len() && i != bucket_of(h0, self.buckets@.len()) ==> #[trigger] f.buckets@[i].b() == self.buckets@[i].b()
            &&& forall|p: int| 0 <= p < 8 * self.cache().len() ==> #[trigger] bit(f.cache(), p) == (bit(self.cache(), p) || p == cache_bit(h0, self.cache().len()))
        }
    }
    pub open spec fn cleared(&self, f: &Self) -> bool {
        f.same_params(self) && (self.wf() ==> f.wf()) && f.count == 0 && f.cache() == zeros8(self.cache().len())
            && forall|i: int| 0 <= i < self.buckets@.len() ==> #[trigger] f.buckets@[i].b() == zeros8(4096)
    }
    pub open spec fn common(&self, o: &Self) -> u64 { est_sum(ones_common(self.buckets@, o.buckets@), self.n_hash_buck) }
    pub open spec fn size(&self) -> int { 4096 * self.n_buckets + self.cache_byte_size }
    pub open spec fn ser_tail(&self) -> Seq<u8> {
        le64(self.capacity) + le64(f_bits(self.fpp)) + le64(self.n_hash_buck) + le64(self.count) + le64((8 * self.cache().len()) as u64) + self.cache()
            + le64(self.buckets@.len() as u64) + ser_buckets(self.buckets@) + self.data@
    }
    pub open spec fn ser(&self) -> Seq<u8> { self.flags.bytes() + self.ser_tail() }
    /// self is what the bytes s (after the flags) decode to
    pub open spec fn decodes(&self, s: Seq<u8>, partial: bool) -> bool {
        let cb = cache_bytes(crate::word(s, 4)); let nb = self.n_buckets as int;
        &&& s.len() >= 48 + cb + 4096 * nb
        &&& self.capacity == crate::word(s, 0) && self.fpp == f_of(crate::word(s, 1)) && self.n_hash_buck == crate::word(s, 2) && self.count == crate::word(s, 3)
        &&& crate::fpp_ok(self.fpp)
        &&& self.cache_byte_size == cb
        &&& self.n_buckets == un64(s.subrange(40 + cb, 48 + cb))
        &&& partial ==> self.cache().len() == 0 && self.buckets@.len() == 0
        &&& !partial ==> self.cache() == s.subrange(40, 40 + cb) && self.buckets@.len() == nb && forall|i: int| 0 <= i < nb ==> #[trigger] self.buckets@[i].b() == s.subrange(48 + cb + 4096 * i, 48 + cb + 4096 * i + 4096)
        &&& self.data@ == s.skip(48 + cb + 4096 * nb)
    }
}
pub open spec fn cache_bytes(bits: u64) -> int { (bits as int + 7) / 8 }
pub open spec fn loadable(s: Seq<u8>) -> bool {
    &&& s.len() >= 40 && crate::fpp_ok(f_of(crate::word(s, 1))) && crate::word(s, 4) <= 0x20_0000_0000_0000
    &&& s.len() >= 48 + cache_bytes(crate::word(s, 4))
    &&& s.len() >= 48 + cache_bytes(crate::word(s, 4)) + 4096 * un64(s.subrange(40 + cache_bytes(crate::word(s, 4)), 48 + cache_bytes(crate::word(s, 4))))
}

@fn bloom::v2::xorshift_star
ret r
ensures r == xs(seed)

@fn bloom::v2::IndexIterator::new
ret r
ensures !r.init, r.i == 0

@fn bloom::v2::IndexIterator::set_count
ensures *final(self) == (IndexIterator { count, ..*old(self) })

@fn bloom::v2::IndexIterator::bucket_hash
ret r
ensures r == xs(self.h1)

@fn bloom::v2::IndexIterator::is_init
ret r
ensures r == self.ready()

@fn bloom::v2::IndexIterator::init_with_slice
ret r
ensures r.ready(), r.h1 == crate::key_hash::<H>(data.as_ref_spec()@), r.count == self.count
@loop 0
invariant forall|k: int| 0 <= k < $i ==> tmp@[k] == data.as_ref_spec()@[k], forall|k: int| $i <= k < 8 ==> tmp@[k] == 0u8
@loopafter 0
assert(tmp@ =~= crate::pad8(data.as_ref_spec()@));

@fn bloom::v2::IndexIterator::init_with_hashable
ret r
ensures r.ready(), r.h1 == data.pop_spec::<H>(), r.count == self.count

@fn bloom::v2::<IndexIterator as Iterator>::next
ret r
requires M > 0
ensures
    final(self).init == old(self).init, final(self).count == old(self).count,
    old(self).i >= old(self).count ==> r is None && *final(self) == *old(self),
    old(self).i < old(self).count ==> final(self).i == old(self).i + 1 && r == Some((final(self).h1 % M) as u64),
    forall|h0: u64| old(self).i < old(self).count && #[trigger] old(self).at(h0) ==> final(self).at(h0),

@fn bloom::v2::BloomFilter::index_iter
ret r
ensures r.count == self.n_hash_buck, r.i == 0

@fn bloom::v2::BloomFilter::build_index_iter
ret r
ensures r.ready(), r.h1 == data.pop_spec::<WyHasher>()

@fn bloom::v2::BloomFilter::has_optimal_buckets
ret r
ensures r == (self.buckets@.len() != 0 && (self.buckets@.len() as usize) & ((self.buckets@.len() - 1) as usize) == 0)

@fn bloom::v2::BloomFilter::insert_iter
ret r
requires old(self).wf()
ensures
    !it.ready() ==> r is Err && r->Err_0 is UninitIter && final(self).same_state(old(self)),
    it.ready() ==> old(self).inserted(it.h1, &*final(self), r)
@entry
hide(vstd::wrapping::u64_specs::wrapping_mul);
let ghost h0 = it.h1; let ghost ob = old(self).bucket(it.h1); let ghost nh = old(self).n_hash_buck as nat; let ghost ib = bucket_of(it.h1, old(self).buckets@.len());
@loop 0
invariant $it.count == nh, $it.i <= nh, $it.at(h0), old(self).usable(), 0 <= ib < old(self).buckets@.len(),
    forall|p: int| 0 <= p < 32768 ==> #[trigger] bit(bucket.b(), p) == (bit(ob, p) || touched(h0, $it.i as nat, p)),
    new == !all_set(ob, h0, $it.i as nat),
    !new ==> bucket.b() == ob,
    new ==> !reached_cap,
decreases nh - $it.i
@loopstart 0
broadcast use lemma_all_set_down;
let ghost vx_k = $it.i as nat; let ghost vx_b = bucket.b();
proof {
    assert(all_set(ob, h0, vx_k + 1) == (all_set(ob, h0, vx_k) && bit(ob, idx::<WyHasher>(h0, 32768, vx_k) as int)));
    assert(idx::<WyHasher>(h0, 32768, vx_k) < 32768);
}
@loopend 0
proof {
    let i = idx::<WyHasher>(h0, 32768, vx_k) as int;
    assert forall|p: int| 0 <= p < 32768 implies #[trigger] bit(bucket.b(), p) == (bit(ob, p) || touched(h0, vx_k + 1, p)) by {
        assert(bit(vx_b, p) == (bit(ob, p) || touched(h0, vx_k, p)));
        assert(bit(bucket.b(), p) == (bit(vx_b, p) || p == i));
    }
    if bit(vx_b, i) { lemma_bits_ext(bucket.b(), vx_b); }
}
@loopafter 0
proof { lemma_touched_set(bucket.b(), h0, nh, nh); }

@fn bloom::v2::BloomFilter::contains_iter
ret r
requires self.wf()
ensures
    !it.ready() ==> r is Err && r->Err_0 is UninitIter,
    it.ready() ==> r == Ok::<bool, crate::bloom::Error>(self.member(it.h1))
@entry
hide(vstd::wrapping::u64_specs::wrapping_mul);
let ghost h0 = it.h1; let ghost ob = self.bucket(it.h1); let ghost nh = self.n_hash_buck as nat;
@loop 0
invariant $it.count == nh, $it.i <= nh, $it.at(h0), bucket.b() == ob, self.cache_hit(h0), all_set(ob, h0, $it.i as nat),
decreases nh - $it.i
@loopstart 0
broadcast use lemma_all_set_down;
let ghost vx_k = $it.i as nat;
proof {
    assert(all_set(ob, h0, vx_k + 1) == (all_set(ob, h0, vx_k) && bit(ob, idx::<WyHasher>(h0, 32768, vx_k) as int)));
    assert(idx::<WyHasher>(h0, 32768, vx_k) < 32768);
}

@fn bloom::v2::BloomFilter::_insert_bytes_old
ret r
requires old(self).wf()
ensures old(self).inserted(crate::key_hash::<WyHasher>(data.as_ref_spec()@), &*final(self), r)

@fn bloom::v2::BloomFilter::insert_bytes
ret r
requires old(self).wf()
ensures old(self).inserted(crate::key_hash::<WyHasher>(data.as_ref_spec()@), &*final(self), r)

@fn bloom::v2::BloomFilter::insert
ret r
requires old(self).wf()
ensures old(self).inserted(data.pop_spec::<WyHasher>(), &*final(self), r)

@fn bloom::v2::BloomFilter::_contains_bytes_old
ret r
requires self.wf()
ensures r == self.member(crate::key_hash::<WyHasher>(data.as_ref_spec()@))

@fn bloom::v2::BloomFilter::contains_bytes
ret r
requires self.wf()
ensures r == self.member(crate::key_hash::<WyHasher>(data.as_ref_spec()@))

@fn bloom::v2::BloomFilter::contains
ret r
requires self.wf()
ensures r == self.member(data.pop_spec::<WyHasher>())

@fn bloom::v2::BloomFilter::clear
ensures old(self).cleared(&*final(self))
@loopbefore 0
let ghost vx_c = self.cache();
@loop 0
invariant self.same_params(old(self)), self.cache() == vx_c,
    forall|k: int| 0 <= k < $i ==> #[trigger] self.buckets@[k].b() == zeros8(4096)

@fn bloom::v2::BloomFilter::count_ones
ret r
requires self.buckets@.len() <= 0x40_0000_0000
ensures r == sum_ones(self.buckets@), r <= 32768 * self.buckets@.len()
@loop 0
invariant $acc == sum_ones(self.buckets@.take($i as int)), $acc <= 32768 * $i
@loopstart 0
assert(self.buckets@.take($j as int + 1).drop_last() =~= self.buckets@.take($j as int));
@loopafter 0
assert(self.buckets@.take(self.buckets@.len() as int) =~= self.buckets@);

@fn bloom::v2::BloomFilter::count_zeros
ret r
requires self.buckets@.len() <= 0x40_0000_0000
ensures r == 32768 * self.buckets@.len() - sum_ones(self.buckets@)
@loop 0
invariant $acc == 32768 * $i - sum_ones(self.buckets@.take($i as int)), $acc <= 32768 * $i
@loopstart 0
assert(self.buckets@.take($j as int + 1).drop_last() =~= self.buckets@.take($j as int));
@loopafter 0
assert(self.buckets@.take(self.buckets@.len() as int) =~= self.buckets@);

@fn bloom::v2::BloomFilter::size_in_bytes
ret r
requires self.wf()
ensures r == 4096 * self.n_buckets + self.cache_byte_size, self.buckets@.len() > 0 ==> r == 4096 * self.buckets@.len() + self.cache().len()

@fn bloom::v2::BloomFilter::fpp
ret r
ensures r == self.fpp

@fn bloom::v2::BloomFilter::capacity
ret r
ensures r == self.capacity

@fn bloom::v2::BloomFilter::is_full
ret r
ensures r == (self.count >= self.capacity)

@fn bloom::v2::BloomFilter::count_estimate
ret r
ensures r == self.count

@fn bloom::v2::BloomFilter::has_same_params
ret r
ensures r == self.compatible(other)

@fn bloom::v2::BloomFilter::count_common_entries
ret r
ensures
    r is Ok <==> self.compatible(other),
    r is Err ==> r->Err_0 is Merge,
    /*formula*/ r is Ok ==> r->Ok_0 == self.common(other)
@loop 0
invariant $acc == est_sum(ones_common(self.buckets@, other.buckets@).take($i as int), self.n_hash_buck)
@loopstart 0
assert(ones_common(self.buckets@, other.buckets@).take($j as int + 1).drop_last() =~= ones_common(self.buckets@, other.buckets@).take($j as int));
@loopafter 0
assert(ones_common(self.buckets@, other.buckets@).take(self.buckets@.len() as int) =~= ones_common(self.buckets@, other.buckets@));

@fn bloom::v2::BloomFilter::update_count
ensures final(self).same_params(old(self)), final(self).buckets == old(self).buckets, final(self).index_cache == old(self).index_cache,
    /*formula*/ final(self).count == est_sum(ones_of(old(self).buckets@), old(self).n_hash_buck)
@loop 0
invariant $acc == est_sum(ones_of(self.buckets@).take($i as int), self.n_hash_buck)
@loopstart 0
assert(ones_of(self.buckets@).take($j as int + 1).drop_last() =~= ones_of(self.buckets@).take($j as int));
@loopafter 0
assert(ones_of(self.buckets@).take(self.buckets@.len() as int) =~= ones_of(self.buckets@));

@mod bloom::v2
impl BloomFilter {
    pub open spec fn united(&self, o: &Self, f: &Self) -> bool {
        &&& f.same_params(self) && (self.wf() ==> f.wf())
        &&& f.cache() == or8(self.cache(), o.cache())
        &&& forall|i: int| 0 <= i < self.buckets@.len() ==> #[trigger] f.buckets@[i].b() == or8(self.buckets@[i].b(), o.buckets@[i].b())
        &&& f.count == est_sum(ones_of(f.buckets@), self.n_hash_buck)
    }
    pub open spec fn intersected(&self, o: &Self, f: &Self) -> bool {
        &&& f.same_params(self) && (self.wf() ==> f.wf())
        &&& f.cache() == and8(self.cache(), o.cache())
        &&& forall|i: int| 0 <= i < self.buckets@.len() ==> #[trigger] f.buckets@[i].b() == and8(self.buckets@[i].b(), o.buckets@[i].b())
        &&& f.count == est_sum(ones_of(f.buckets@), self.n_hash_buck)
    }
}

@fn bloom::v2::BloomFilter::union_merge
ret r
ensures
    r is Ok <==> old(self).compatible(other),
    r is Err ==> r->Err_0 is Merge && final(self).same_state(old(self)),
    r is Ok ==> old(self).united(other, &*final(self))
@loopbefore 0
let ghost vx_c = self.cache();
@loop 0
invariant self.same_params(old(self)), self.cache() == vx_c,
    forall|k: int| 0 <= k < $i ==> #[trigger] self.buckets@[k].b() == or8(old(self).buckets@[k].b(), other.buckets@[k].b()),
    forall|k: int| $i <= k < self.buckets@.len() ==> #[trigger] self.buckets@[k].b() == old(self).buckets@[k].b()

@fn bloom::v2::BloomFilter::intersection_merge
ret r
ensures
    r is Ok <==> old(self).compatible(other),
    r is Err ==> r->Err_0 is Merge && final(self).same_state(old(self)),
    r is Ok ==> old(self).intersected(other, &*final(self))
@loopbefore 0
let ghost vx_c = self.cache();
@loop 0
invariant self.same_params(old(self)), self.cache() == vx_c,
    forall|k: int| 0 <= k < $i ==> #[trigger] self.buckets@[k].b() == and8(old(self).buckets@[k].b(), other.buckets@[k].b()),
    forall|k: int| $i <= k < self.buckets@.len() ==> #[trigger] self.buckets@[k].b() == old(self).buckets@[k].b()

@fn bloom::v2::BloomFilter::union
ret r
ensures r is Ok <==> self.compatible(&other), r is Err ==> r->Err_0 is Merge, r is Ok ==> self.united(&other, &r->Ok_0)

@fn bloom::v2::BloomFilter::intersection
ret r
ensures r is Ok <==> self.compatible(&other), r is Err ==> r->Err_0 is Merge, r is Ok ==> self.intersected(&other, &r->Ok_0)

@fn bloom::v2::BloomFilter::write
ret r
requires self.wf()
ensures
    r is Ok ==> (*final(w)).sink() == (*old(w)).sink() + self.ser(),
    (*old(w)).dependable() ==> r is Ok && (*final(w)).dependable(),
    (*final(w)).place() == (*old(w)).place()
@loop 0
invariant w.inner.sink() + w.pending@ == vx_sink0 + ser_buckets(self.buckets@.take($i as int)), (vx_dep0 ==> w.inner.dependable()), w.inner.place() == vx_place0, *final(w.inner) == vx_end0
@loopbefore 0
let ghost vx_sink0 = w.inner.sink() + w.pending@; let ghost vx_dep0 = w.inner.dependable(); let ghost vx_place0 = w.inner.place(); let ghost vx_end0 = *final(w.inner);
@loopstart 0
assert(self.buckets@.take($j as int + 1).drop_last() =~= self.buckets@.take($j as int));
@loopafter 0
assert(self.buckets@.take(self.buckets@.len() as int) =~= self.buckets@);

@fn bloom::v2::BloomFilter::from_reader_with_flags
ret res
ensures
    res is Ok ==> r.pos() <= r.stream().len() && (res->Ok_0).wf() && (res->Ok_0).flags == flags && (res->Ok_0).decodes(r.stream().skip(r.pos() as int), partial),
    r.reliable() && r.pos() <= r.stream().len() && loadable(r.stream().skip(r.pos() as int)) ==> res is Ok
@entry
let ghost s0 = r.stream(); let ghost p0 = r.pos() as int; let ghost rest = s0.skip(p0);
let ghost cb = cache_bytes(crate::word(rest, 4));
proof {
    crate::vx::io::ax_stream_len(&r);
    if p0 + 40 <= s0.len() {
        assert(rest.subrange(0, 8) =~= s0.subrange(p0, p0 + 8));
        assert(rest.subrange(8, 16) =~= s0.subrange(p0 + 8, p0 + 16));
        assert(rest.subrange(16, 24) =~= s0.subrange(p0 + 16, p0 + 24));
        assert(rest.subrange(24, 32) =~= s0.subrange(p0 + 24, p0 + 32));
        assert(rest.subrange(32, 40) =~= s0.subrange(p0 + 32, p0 + 40));
        if cb == 0 { assert(rest.subrange(40, 40 + cb) =~= Seq::<u8>::empty()); }
        if p0 + 40 + cb <= s0.len() { assert(rest.subrange(40, 40 + cb) =~= s0.subrange(p0 + 40, p0 + 40 + cb)); }
        if p0 + 48 + cb <= s0.len() { assert(rest.subrange(40 + cb, 48 + cb) =~= s0.subrange(p0 + 40 + cb, p0 + 48 + cb)); }
    }
    assert forall|k: int| p0 <= s0.len() && 0 <= k <= rest.len() implies #[trigger] rest.skip(k) == s0.skip(p0 + k) by { assert(rest.skip(k) =~= s0.skip(p0 + k)); }
}
@loop 0
invariant r.stream() == s0, r.reliable() == vx_rel, r.pos() == p0 + 48 + cb + 4096 * $i, buckets@.len() == (if vx_b.len() == 0 { $i as nat } else { n_buckets as nat }),
    forall|k: int| 0 <= k < $i ==> #[trigger] buckets@[k].b() == rest.subrange(48 + cb + 4096 * k, 48 + cb + 4096 * k + 4096)
@loopbefore 0
let ghost vx_rel = r.reliable(); let ghost vx_b: Seq<Bucket> = buckets@;
@loopstart 0
assert(rest.subrange(48 + cb + 4096 * $j, 48 + cb + 4096 * $j + 4096) =~= s0.subrange(p0 + 48 + cb + 4096 * $j, p0 + 48 + cb + 4096 * $j + 4096));

@fn bloom::v2::BloomFilter::_from_reader
ret res
ensures
    res is Ok ==> r.pos() + 8 <= r.stream().len() && (res->Ok_0).wf() && r.stream()[r.pos() as int] == 2
        && (res->Ok_0).flags.bytes() == r.stream().subrange(r.pos() as int, (r.pos() + 8) as int) && (res->Ok_0).decodes(r.stream().skip((r.pos() + 8) as int), partial),
    r.reliable() && r.pos() + 8 <= r.stream().len() && r.stream()[r.pos() as int] == 2 && r.stream()[(r.pos() + 1) as int] <= 3 && loadable(r.stream().skip((r.pos() + 8) as int)) ==> res is Ok

@fn bloom::v2::BloomFilter::from_reader
ret res
ensures
    res is Ok ==> r.pos() + 8 <= r.stream().len() && (res->Ok_0).wf() && r.stream()[r.pos() as int] == 2
        && (res->Ok_0).flags.bytes() == r.stream().subrange(r.pos() as int, (r.pos() + 8) as int) && (res->Ok_0).decodes(r.stream().skip((r.pos() + 8) as int), false),
    r.reliable() && r.pos() + 8 <= r.stream().len() && r.stream()[r.pos() as int] == 2 && r.stream()[(r.pos() + 1) as int] <= 3 && loadable(r.stream().skip((r.pos() + 8) as int)) ==> res is Ok

@mod bloom::v2
pub open spec fn bucket_cap(fpp: f64) -> u64 { crate::bloom::utils::cap_spec(32768, fpp) }
pub open spec fn n_buckets_none(cap: u64, fpp: f64) -> u64 { s_f2u(s_fceil(s_fdiv(s_u2f(cap), s_u2f(bucket_cap(fpp))))) }
pub open spec fn k_none(fpp: f64) -> u64 { s_f2u(s_fceil(s_u2f(crate::bloom::utils::k_spec(32768, bucket_cap(fpp))))) }
pub open spec fn k_opt(cap: u64, fpp: f64, cache_bits: u64) -> u64 {
    s_f2u(s_fmax(s_fceil(s_fmul(s_fmul(crate::bloom::utils::ln2(), crate::bloom::utils::estimate_p_spec(cap, cache_bits)), s_fround(s_fdiv(s_u2f(32768), s_u2f(bucket_cap(fpp)))))), crate::one()))
}
/// the request fits in memory
pub open spec fn affordable(cap: u64, fpp: f64, opt: OptLevel) -> bool {
    crate::fpp_ok(fpp) ==> n_buckets_none(cap, fpp) <= 0x20_0000_0000 && ((opt is Speed || opt is Best) ==> cap <= 0x10_0000_0000_0000)
}
pub open spec fn built(b: BloomFilter, cap: u64, fpp: f64, opt: OptLevel) -> bool {
    &&& b.wf() && b.capacity == cap && b.fpp == fpp && b.count == 0 && b.data@.len() == 0
    &&& b.flags.bytes() == seq![2u8, crate::bloom::opt_byte(opt), 0u8, 0u8, 0u8, 0u8, 0u8, 0u8]
    &&& b.n_buckets == b.buckets@.len() && b.cache_byte_size == b.cache().len()
    &&& forall|i: int| 0 <= i < b.buckets@.len() ==> #[trigger] b.buckets@[i].b() == zeros8(4096)
    &&& b.cache() == zeros8(b.cache().len())
    &&& match opt {
        OptLevel::None | OptLevel::Space => b.n_buckets == n_buckets_none(cap, fpp) && b.cache().len() == 0 && b.n_hash_buck == k_none(fpp),
        OptLevel::Speed => is_npow2(n_buckets_none(cap, fpp), b.n_buckets) && is_npow2(cap, npow2(cap)) && b.cache().len() == cache_bytes(npow2(cap)) && b.n_hash_buck == k_opt(cap, fpp, npow2(cap)),
        OptLevel::Best => b.n_buckets == n_buckets_none(cap, fpp) && is_npow2(cap, npow2(cap)) && b.cache().len() == cache_bytes(npow2(cap)) && b.n_hash_buck == k_opt(cap, fpp, npow2(cap)),
    }
}

@mod bloom::v2
/// the part of `built` that no formula is needed for
pub open spec fn empty_for(b: BloomFilter, cap: u64, fpp: f64, opt: OptLevel) -> bool {
    &&& b.capacity == cap && b.fpp == fpp && b.count == 0 && b.data@.len() == 0
    &&& b.flags.bytes() == seq![2u8, crate::bloom::opt_byte(opt), 0u8, 0u8, 0u8, 0u8, 0u8, 0u8]
    &&& b.n_buckets == b.buckets@.len() && b.cache_byte_size == b.cache().len()
    &&& forall|i: int| 0 <= i < b.buckets@.len() ==> #[trigger] b.buckets@[i].b() == zeros8(4096)
    &&& b.cache() == zeros8(b.cache().len())
    &&& (opt is None || opt is Space) ==> b.cache().len() == 0
}

@fn bloom::v2::BloomFilter::make
ret r
requires affordable(capacity, fpp, opt)
ensures
    r is Ok <==> crate::fpp_ok(fpp),
    r is Ok ==> empty_for(r->Ok_0, capacity, fpp, opt),
    /*formula*/ r is Ok ==> built(r->Ok_0, capacity, fpp, opt),
    r is Err ==> r->Err_0 == crate::bloom::Error::WrongFpp(fpp)

@fn bloom::v2::BloomFilter::with_capacity
ret r
requires affordable(cap, proba, OptLevel::None)
ensures
    r is Ok <==> crate::fpp_ok(proba),
    r is Ok ==> built(r->Ok_0, cap, proba, OptLevel::None),
    r is Err ==> r->Err_0 == crate::bloom::Error::WrongFpp(proba)

@implitem bloom::v2::<BloomFilter as TryFrom>
open spec fn try_from_pre(t: Params) -> bool { affordable(t.capacity as u64, t.fpp, t.opt) }
open spec fn try_from_ok(t: Params, r: Result<Self, Error>) -> bool { (r is Ok <==> crate::fpp_ok(t.fpp)) && (r is Ok ==> built(r->Ok_0, t.capacity as u64, t.fpp, t.opt)) && (r is Err ==> r->Err_0 == crate::bloom::Error::WrongFpp(t.fpp)) }

@fn bloom::v2::<BloomFilter as TryFrom>::try_from
