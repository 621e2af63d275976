@# Property-level lemmas: consequences of the contracts that the property statements spell out

@mod bloom::v1
impl BloomFilter {
    /// not metadata-only: the blocks are there
    pub open spec fn full(&self) -> bool { self.wf() && self.bit_size <= 0x20_0000_0000_0000 && self.bitset@.len() == nblocks(self.bit_size) }
}
/// C01: an insertion, accepted or rejected, keeps every entry
pub proof fn prop_insert_keeps(a: BloomFilter, d: Seq<u8>, f: BloomFilter, r: Result<bool, crate::bloom::Error>, e: Seq<u8>)
    requires a.wf(), a.inserted(d, &f, r), a.member(e)
    ensures f.member(e)
{
    if r is Ok {
        if a.n_hash > 0 {
            if a.bit_size > 0 { lemma_all_set_mono(a.bitset@, f.bitset@, e, a.bit_size, a.n_hash as nat); }
        }
    }
}
/// C01, C04: a union keeps the entries of both operands
pub proof fn prop_union_keeps(a: BloomFilter, b: BloomFilter, f: BloomFilter, e: Seq<u8>)
    requires a.wf(), b.wf(), a.compatible(&b), a.united(&b, &f), a.member(e) || b.member(e)
    ensures f.member(e)
{
    assert forall|p: int| 0 <= p < 64 * a.bitset@.len() implies bit64(f.bitset@, p) == (bit64(a.bitset@, p) || bit64(b.bitset@, p)) by { lemma_or64_bit(a.bitset@, b.bitset@, p); }
    if a.bit_size > 0 {
        if a.member(e) { lemma_all_set_mono(a.bitset@, f.bitset@, e, a.bit_size, a.n_hash as nat); }
        else { lemma_all_set_mono(b.bitset@, f.bitset@, e, a.bit_size, a.n_hash as nat); }
    }
}
pub proof fn lemma_or64_bit(a: Seq<u64>, b: Seq<u64>, p: int)
    requires a.len() == b.len(), 0 <= p < 64 * a.len()
    ensures bit64(or64(a, b), p) == (bit64(a, p) || bit64(b, p))
{
    let x = a[p / 64]; let y = b[p / 64]; let k = (p % 64) as u32;
    assert((x | y) & (1u64 << k) != 0 <==> (x & (1u64 << k) != 0 || y & (1u64 << k) != 0)) by (bit_vector);
}
pub proof fn lemma_all_set_zero(n: nat, e: Seq<u8>, m: u64, k: nat)
    requires k > 0, 0 < m <= 64 * n
    ensures !all_set(zeros64(n), e, m, k)
    decreases k
{
    let i = idx(e, m, (k - 1) as nat);
    let j = (i as int % 64) as u32;
    assert(zeros64(n)[i as int / 64] == 0);
    assert(0u64 & (1u64 << j) == 0) by (bit_vector);
}
/// C06: nothing is found after clearing, and there is room again
pub proof fn prop_cleared(a: BloomFilter, f: BloomFilter, e: Seq<u8>)
    requires a.wf(), a.cleared(&f), a.n_hash > 0, a.bit_size > 0
    ensures !f.member(e), f.count == 0, f.usable() == a.usable()
{
    if f.bitset@.len() > 0 { lemma_all_set_zero(a.bitset@.len(), e, a.bit_size, a.n_hash as nat); }
}
/// what stands where in the bytes written
pub proof fn lemma_layout(a: BloomFilter)
    ensures ({ let s = a.ser_tail(); let n = a.bitset@.len() as int;
        s.len() == 40 + 8 * n + a.data@.len() && s.subrange(0, 8) == le64(a.capacity) && s.subrange(8, 16) == le64(f_bits(a.fpp)) && s.subrange(16, 24) == le64(a.n_hash) && s.subrange(24, 32) == le64(a.bit_size)
        && s.subrange(32, 40) == le64(a.count) && s.skip(40 + 8 * n) == a.data@ && forall|i: int| 0 <= i < n ==> #[trigger] s.subrange(8 * (5 + i), 8 * (5 + i) + 8) == le64(a.bitset@[i]) })
{
    hide(le64);
    let s = a.ser_tail(); let h = five(a.capacity, f_bits(a.fpp), a.n_hash, a.bit_size, a.count); let bl = ser64(a.bitset@);
    assert(s == h + bl + a.data@);
    lemma_five(a.capacity, f_bits(a.fpp), a.n_hash, a.bit_size, a.count);
    lemma_ser64(a.bitset@);
    assert(s =~= h + (bl + a.data@));
    lemma_five_in(h, bl + a.data@);
    lemma_skip_head(h + bl, a.data@);
    assert forall|i: int| 0 <= i < a.bitset@.len() implies #[trigger] s.subrange(8 * (5 + i), 8 * (5 + i) + 8) == le64(a.bitset@[i]) by {
        lemma_sub_head(h + bl, a.data@, 40 + 8 * i, 48 + 8 * i);
        lemma_sub_tail(h, bl, 8 * i, 8 * i + 8);
        assert(bl.subrange(8 * i, 8 * i + 8) == le64(a.bitset@[i]));
    }
}
/// C07: the bytes written can be loaded, and what is loaded is the filter that was written
#[verifier::spinoff_prover]
pub proof fn prop_round_trip(a: BloomFilter, g: BloomFilter)
    requires a.full()
    ensures loadable(a.ser_tail()), g.flags == a.flags && g.wf() && g.decodes(a.ser_tail(), false) ==> g.same_state(&a) && g.ser() == a.ser() && g.full()
{
    hide(le64); hide(un64);
    let s = a.ser_tail(); let n = nblocks(a.bit_size);
    lemma_layout(a);
    lemma_un_le(a.capacity); lemma_un_le(f_bits(a.fpp)); lemma_un_le(a.n_hash); lemma_un_le(a.bit_size); lemma_un_le(a.count);
    if g.flags == a.flags && g.wf() && g.decodes(s, false) {
        assert forall|i: int| 0 <= i < n implies g.bitset@[i] == a.bitset@[i] by {
            assert(g.bitset@[i] == crate::word(s, 5 + i));
            lemma_un_le(a.bitset@[i]);
        }
        assert(g.bitset@ =~= a.bitset@);
        assert(g.data@ == a.data@);
    }
}
/// C10: metadata-only and full load of the same bytes agree
pub proof fn prop_partial(a: BloomFilter, b: BloomFilter, s: Seq<u8>)
    requires a.decodes(s, false), b.decodes(s, true)
    ensures a.capacity == b.capacity, a.fpp == b.fpp, a.count == b.count, a.size() == b.size(), a.data@ == b.data@
{}
/// C10, C12: what is not loadable is accepted by neither load
pub proof fn prop_partial_refused(a: BloomFilter, s: Seq<u8>, partial: bool)
    requires a.decodes(s, partial)
    ensures loadable(s)
{}
/// C16: the estimate of common entries is symmetric, and for equal filters is the estimate of one of them
pub proof fn prop_common(a: BloomFilter, b: BloomFilter)
    ensures a.compatible(&b) == b.compatible(&a), a.compatible(&b) ==> a.common(&b) == b.common(&a), a.common(&a) == s_f2u(est(a.bit_size, ones64(a.bitset@) as u64, a.n_hash))
{
    ax_feq_sym(a.fpp, b.fpp);
    assert(and64(a.bitset@, a.bitset@) =~= a.bitset@) by { assert forall|x: u64| #[trigger] (x & x) == x by { assert(x & x == x) by (bit_vector); } }
    if a.compatible(&b) { assert(and64(a.bitset@, b.bitset@) =~= and64(b.bitset@, a.bitset@)) by { assert forall|x: u64, y: u64| #[trigger] (x & y) == y & x by { assert(x & y == y & x) by (bit_vector); } } }
}
/// C15: a new filter of non-zero capacity holds nothing and takes a first entry
pub proof fn prop_first(b: BloomFilter, cap: u64, fpp: f64, d: Seq<u8>, f: BloomFilter, r: Result<bool, crate::bloom::Error>)
    requires built(b, cap, fpp), cap > 0, b.inserted(d, &f, r)
    ensures r == Ok::<bool, crate::bloom::Error>(true), !b.member(d), b.usable()
{
    ax_ceil_pos(b.bit_size, cap);
    lemma_all_set_zero(b.bitset@.len(), d, b.bit_size, b.n_hash as nat);
}

@mod bloom::v2
impl BloomFilter {
    pub open spec fn full(&self) -> bool { self.wf() && self.buckets@.len() == self.n_buckets && self.cache().len() == self.cache_byte_size }
}
pub proof fn lemma_or8_bit(a: Seq<u8>, b: Seq<u8>, p: int)
    requires a.len() == b.len(), 0 <= p < 8 * a.len()
    ensures bit(or8(a, b), p) == (bit(a, p) || bit(b, p)), bit(and8(a, b), p) == (bit(a, p) && bit(b, p))
{}
pub proof fn lemma_cache_bit(h0: u64, n: nat)
    requires 0 < n <= 0x4_0000_0000_0000
    ensures 0 <= cache_bit(h0, n) < 8 * n
{
    let m = (8 * n - 1) as usize; let x = xs(h0) as usize;
    assert(x & m <= m) by (bit_vector);
}
pub proof fn prop_insert_keeps(a: BloomFilter, h: u64, f: BloomFilter, r: Result<bool, crate::bloom::Error>, e: u64)
    requires a.wf(), a.inserted(h, &f, r), a.member(e)
    ensures f.member(e)
{
    let ib = bucket_of(e, a.buckets@.len()); let n = a.buckets@.len();
    assert(0 <= ib < n);
    if r is Ok {
        if ib == bucket_of(h, n) { lemma_all_set_mono(a.bucket(e), f.bucket(e), e, a.n_hash_buck as nat); }
        if a.cache().len() > 0 { lemma_cache_bit(e, a.cache().len()); assert(bit(f.cache(), cache_bit(e, a.cache().len()))); }
    } else {
        assert(f.buckets@[ib].b() == a.buckets@[ib].b());
    }
}
pub proof fn prop_union_keeps(a: BloomFilter, b: BloomFilter, f: BloomFilter, e: u64)
    requires a.wf(), b.wf(), a.compatible(&b), a.united(&b, &f), a.member(e) || b.member(e)
    ensures f.member(e)
{
    let n = a.buckets@.len(); let ib = bucket_of(e, n);
    assert(0 <= ib < n);
    let x = a.buckets@[ib].b(); let y = b.buckets@[ib].b();
    assert(f.buckets@[ib].b() == or8(x, y));
    lemma_len(a.buckets@[ib]); lemma_len(b.buckets@[ib]);
    assert forall|p: int| 0 <= p < 32768 implies #[trigger] bit(or8(x, y), p) == (bit(x, p) || bit(y, p)) by { lemma_or8_bit(x, y, p); }
    if a.cache().len() > 0 { lemma_cache_bit(e, a.cache().len()); lemma_or8_bit(a.cache(), b.cache(), cache_bit(e, a.cache().len())); }
    if a.member(e) { lemma_all_set_mono(x, or8(x, y), e, a.n_hash_buck as nat); } else { lemma_all_set_mono(y, or8(x, y), e, a.n_hash_buck as nat); }
}
pub proof fn lemma_len(b: Bucket) ensures b.b().len() == 4096 {}
/// C05: an entry present in both operands is still found
pub proof fn prop_intersection_keeps(a: BloomFilter, b: BloomFilter, f: BloomFilter, e: u64)
    requires a.wf(), b.wf(), a.compatible(&b), a.intersected(&b, &f), a.member(e) && b.member(e)
    ensures f.member(e)
{
    let n = a.buckets@.len(); let ib = bucket_of(e, n);
    assert(0 <= ib < n);
    let x = a.buckets@[ib].b(); let y = b.buckets@[ib].b();
    assert(f.buckets@[ib].b() == and8(x, y));
    lemma_len(a.buckets@[ib]); lemma_len(b.buckets@[ib]);
    assert forall|p: int| 0 <= p < 32768 && bit(x, p) && bit(y, p) implies #[trigger] bit(and8(x, y), p) by { lemma_or8_bit(x, y, p); }
    if a.cache().len() > 0 { lemma_cache_bit(e, a.cache().len()); lemma_or8_bit(a.cache(), b.cache(), cache_bit(e, a.cache().len())); }
    lemma_all_set_both(x, y, and8(x, y), e, a.n_hash_buck as nat);
}
pub proof fn lemma_all_set_zero(e: u64, k: nat)
    requires k > 0
    ensures !all_set(zeros8(4096), e, k)
{
    let i = idx::<WyHasher>(e, 32768, (k - 1) as nat);
    assert(zeros8(4096)[i as int / 8] == 0);
}
pub proof fn prop_cleared(a: BloomFilter, f: BloomFilter, e: u64)
    requires a.wf(), a.cleared(&f), a.n_hash_buck > 0
    ensures !f.member(e), f.count == 0, f.usable() == a.usable()
{
    if a.usable() { assert(0 <= bucket_of(e, a.buckets@.len()) < a.buckets@.len()); lemma_all_set_zero(e, a.n_hash_buck as nat); }
}
/// what stands where in the bytes written
pub proof fn lemma_layout(a: BloomFilter)
    requires a.cache().len() <= 0x4_0000_0000_0000, a.buckets@.len() <= 0x40_0000_0000
    ensures ({ let s = a.ser_tail(); let cb = a.cache().len() as int; let nb = a.buckets@.len() as int;
        s.len() == 48 + cb + 4096 * nb + a.data@.len() && s.subrange(0, 8) == le64(a.capacity) && s.subrange(8, 16) == le64(f_bits(a.fpp)) && s.subrange(16, 24) == le64(a.n_hash_buck) && s.subrange(24, 32) == le64(a.count)
        && s.subrange(32, 40) == le64((8 * cb) as u64) && s.subrange(40, 40 + cb) == a.cache() && s.subrange(40 + cb, 48 + cb) == le64(nb as u64) && s.skip(48 + cb + 4096 * nb) == a.data@
        && forall|i: int| 0 <= i < nb ==> #[trigger] s.subrange(48 + cb + 4096 * i, 48 + cb + 4096 * i + 4096) == a.buckets@[i].b() })
{
    hide(le64);
    let s = a.ser_tail(); let c = a.cache(); let w = le64(a.buckets@.len() as u64); let bl = ser_buckets(a.buckets@); let d = a.data@;
    let h = five(a.capacity, f_bits(a.fpp), a.n_hash_buck, a.count, (8 * c.len()) as u64);
    assert(s == h + c + w + bl + d);
    lemma_five(a.capacity, f_bits(a.fpp), a.n_hash_buck, a.count, (8 * c.len()) as u64);
    lemma_un_le(a.buckets@.len() as u64);
    lemma_ser_buckets(a.buckets@);
    let p1 = h + c; let p2 = p1 + w; let p3 = p2 + bl;
    assert(s =~= h + (c + w + bl + d));
    lemma_five_in(h, c + w + bl + d);
    lemma_skip_head(p3, d);
    lemma_skip_head(h, c); lemma_sub_head(p1, w, 40, p1.len() as int); lemma_sub_head(p2, bl, 40, p1.len() as int); lemma_sub_head(p3, d, 40, p1.len() as int);
    lemma_skip_head(p1, w); lemma_sub_head(p2, bl, p1.len() as int, p2.len() as int); lemma_sub_head(p3, d, p1.len() as int, p2.len() as int);
    assert forall|i: int| 0 <= i < a.buckets@.len() implies #[trigger] s.subrange(48 + c.len() + 4096 * i, 48 + c.len() + 4096 * i + 4096) == a.buckets@[i].b() by {
        lemma_sub_head(p3, d, 48 + c.len() + 4096 * i, 48 + c.len() + 4096 * i + 4096);
        lemma_sub_tail(p2, bl, 4096 * i, 4096 * i + 4096);
        assert(bl.subrange(4096 * i, 4096 * i + 4096) == a.buckets@[i].b());
    }
}
#[verifier::spinoff_prover]
pub proof fn prop_round_trip(a: BloomFilter, g: BloomFilter)
    requires a.full(), crate::fpp_ok(a.fpp)
    ensures loadable(a.ser_tail()), g.flags == a.flags && g.wf() && g.decodes(a.ser_tail(), false) ==> g.same_state(&a) && g.ser() == a.ser() && g.full() && crate::fpp_ok(g.fpp)
{
    hide(le64); hide(un64);
    let s = a.ser_tail();
    let cb = a.cache().len() as int; let nb = a.buckets@.len() as int;
    lemma_layout(a);
    lemma_un_le(a.capacity); lemma_un_le(f_bits(a.fpp)); lemma_un_le(a.n_hash_buck); lemma_un_le(a.count); lemma_un_le((8 * cb) as u64); lemma_un_le(nb as u64);
    assert(cache_bytes((8 * cb) as u64) == cb);
    if g.flags == a.flags && g.wf() && g.decodes(s, false) {
        assert forall|i: int| 0 <= i < nb implies #[trigger] g.buckets@[i].b() == a.buckets@[i].b() by {
            assert(s.subrange(48 + cb + 4096 * i, 48 + cb + 4096 * i + 4096) == a.buckets@[i].b());
        }
        assert(g.data@ == a.data@);
        lemma_ser_eq(g.buckets@, a.buckets@);
    }
}
pub proof fn lemma_ser_eq(a: Seq<Bucket>, b: Seq<Bucket>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].b() == b[i].b()
    ensures ser_buckets(a) == ser_buckets(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i].b() == b.drop_last()[i].b() by { assert(a[i].b() == b[i].b()); }
        lemma_ser_eq(a.drop_last(), b.drop_last());
        assert(a[a.len() - 1].b() == b[a.len() - 1].b());
    }
}
pub proof fn prop_partial(a: BloomFilter, b: BloomFilter, s: Seq<u8>)
    requires a.decodes(s, false), b.decodes(s, true)
    ensures a.capacity == b.capacity, a.fpp == b.fpp, a.count == b.count, a.size() == b.size(), a.data@ == b.data@
{}
pub proof fn prop_partial_refused(a: BloomFilter, s: Seq<u8>, partial: bool)
    requires a.wf(), a.decodes(s, partial)
    ensures loadable(s)
{}
pub proof fn lemma_and8(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len()
    ensures and8(a, b) == and8(b, a), and8(a, a) == a
{
    assert(and8(a, a) =~= a) by { assert forall|x: u8| #[trigger] (x & x) == x by { assert(x & x == x) by (bit_vector); } }
    assert(and8(a, b) =~= and8(b, a)) by { assert forall|x: u8, y: u8| #[trigger] (x & y) == y & x by { assert(x & y == y & x) by (bit_vector); } }
}
pub proof fn prop_common(a: BloomFilter, b: BloomFilter)
    ensures a.compatible(&b) == b.compatible(&a), a.compatible(&b) ==> a.common(&b) == b.common(&a), a.common(&a) == est_sum(ones_of(a.buckets@), a.n_hash_buck)
{
    ax_feq_sym(a.fpp, b.fpp);
    assert(ones_common(a.buckets@, a.buckets@) =~= ones_of(a.buckets@)) by {
        assert forall|i: int| 0 <= i < a.buckets@.len() implies ones(and8(a.buckets@[i].b(), a.buckets@[i].b())) == ones(a.buckets@[i].b()) by { lemma_and8(a.buckets@[i].b(), a.buckets@[i].b()); }
    }
    if a.compatible(&b) {
        assert(ones_common(a.buckets@, b.buckets@) =~= ones_common(b.buckets@, a.buckets@)) by {
            assert forall|i: int| 0 <= i < a.buckets@.len() implies ones(and8(a.buckets@[i].b(), b.buckets@[i].b())) == ones(and8(b.buckets@[i].b(), a.buckets@[i].b())) by { lemma_len(a.buckets@[i]); lemma_len(b.buckets@[i]); lemma_and8(a.buckets@[i].b(), b.buckets@[i].b()); }
        }
    }
}
pub proof fn prop_first(b: BloomFilter, cap: u64, fpp: f64, opt: OptLevel, h: u64, f: BloomFilter, r: Result<bool, crate::bloom::Error>)
    requires built(b, cap, fpp, opt), cap > 0, b.inserted(h, &f, r)
    ensures r == Ok::<bool, crate::bloom::Error>(true), !b.member(h), b.usable()
{
    ax_ceil_pos(cap, bucket_cap(fpp)); ax_ceil_pos(32768, bucket_cap(fpp)); ax_ceil_int(crate::bloom::utils::k_spec(32768, bucket_cap(fpp)));
    ax_max_one(s_fceil(s_fmul(s_fmul(crate::bloom::utils::ln2(), crate::bloom::utils::estimate_p_spec(cap, npow2(cap))), s_fround(s_fdiv(s_u2f(32768), s_u2f(bucket_cap(fpp)))))));
    assert(b.n_hash_buck > 0);
    assert(b.usable());
    assert(0 <= bucket_of(h, b.buckets@.len()) < b.buckets@.len());
    lemma_all_set_zero(h, b.n_hash_buck as nat);
}

@mod bloom
impl BloomFilter {
    pub open spec fn full(&self) -> bool { match *self { BloomFilter::V1(b) => b.full(), BloomFilter::V2(b) => b.full() && crate::fpp_ok(b.fpp) } }
    /// flags announce the version held
    pub open spec fn flagged(&self) -> bool { self.s_flags().version == (match *self { BloomFilter::V1(_) => 1u8, BloomFilter::V2(_) => 2u8 }) }
}
/// the flags in front of the rest
pub proof fn lemma_front(f: Flags, t: Seq<u8>)
    ensures ({ let s = f.bytes() + t; s.len() == 8 + t.len() && s.subrange(0, 8) == f.bytes() && s.skip(8) == t && s[0] == f.version && s[1] <= 3 })
{
    let fl = f.bytes();
    lemma_skip_head(fl, t); lemma_sub_head(fl, t, 0, 8); assert(fl.subrange(0, 8) =~= fl);
}
#[verifier::spinoff_prover]
proof fn lemma_trip1(b: v1::BloomFilter, g: BloomFilter)
    requires b.full(), b.flags.version == 1
    ensures loadable(b.ser()), g.decodes(b.ser(), false) ==> g is V1 && g->V1_0.same_state(&b) && g->V1_0.ser() == b.ser() && g->V1_0.full() && g->V1_0.flags.version == 1
{
    hide(Flags::bytes); hide(v1::BloomFilter::wf); hide(v2::BloomFilter::wf); hide(v1::BloomFilter::decodes); hide(v2::BloomFilter::decodes); hide(v1::BloomFilter::ser_tail);
    hide(v1::loadable); hide(v2::loadable); hide(v1::BloomFilter::same_state); hide(v1::BloomFilter::full);
    lemma_front(b.flags, b.ser_tail());
    v1::prop_round_trip(b, b);
    if g.decodes(b.ser(), false) {
        lemma_flags_inj(g.s_flags(), b.flags);
        assert(g is V1);
        v1::prop_round_trip(b, g->V1_0);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_trip2(b: v2::BloomFilter, g: BloomFilter)
    requires b.full(), crate::fpp_ok(b.fpp), b.flags.version == 2
    ensures loadable(b.ser()), g.decodes(b.ser(), false) ==> g is V2 && g->V2_0.same_state(&b) && g->V2_0.ser() == b.ser() && g->V2_0.full() && crate::fpp_ok(g->V2_0.fpp) && g->V2_0.flags.version == 2
{
    hide(Flags::bytes); hide(v1::BloomFilter::wf); hide(v2::BloomFilter::wf); hide(v1::BloomFilter::decodes); hide(v2::BloomFilter::decodes); hide(v2::BloomFilter::ser_tail);
    hide(v1::loadable); hide(v2::loadable); hide(v2::BloomFilter::same_state); hide(v2::BloomFilter::full);
    lemma_front(b.flags, b.ser_tail());
    v2::prop_round_trip(b, b);
    if g.decodes(b.ser(), false) {
        lemma_flags_inj(g.s_flags(), b.flags);
        assert(g is V2);
        v2::prop_round_trip(b, g->V2_0);
    }
}
/// C07 through the version-detecting reader
#[verifier::spinoff_prover]
pub proof fn prop_round_trip(a: BloomFilter, g: BloomFilter)
    requires a.full(), a.flagged()
    ensures loadable(a.ser()), g.decodes(a.ser(), false) ==> g.same_state(&a) && g.ser() == a.ser() && g.full() && g.flagged()
{
    hide(loadable); hide(BloomFilter::decodes); hide(v1::BloomFilter::ser); hide(v1::BloomFilter::same_state); hide(v1::BloomFilter::full); hide(v2::BloomFilter::ser); hide(v2::BloomFilter::same_state); hide(v2::BloomFilter::full);
    match a { BloomFilter::V1(b) => { lemma_trip1(b, g); } BloomFilter::V2(b) => { lemma_trip2(b, g); } }
}
/// one operation that must not lose entries, as the contracts describe it
pub enum Op { Insert { d: Seq<u8>, r: Result<bool, Error> }, Union { o: BloomFilter }, RefusedUnion, Reload }
pub open spec fn step(a: BloomFilter, op: Op, b: BloomFilter) -> bool {
    match op {
        Op::Insert { d, r } => a.inserted(d, &b, r),
        Op::Union { o } => o.wf() && a.compatible(&o) && a.united(&o, &b),
        Op::RefusedUnion => b.same_state(&a),
        Op::Reload => b.decodes(a.ser(), false),
    }
}
/// C01: no single operation loses an entry
pub proof fn prop_step_keeps(a: BloomFilter, op: Op, b: BloomFilter, e: Seq<u8>)
    requires a.full(), a.flagged(), step(a, op, b), a.member(e)
    ensures b.member(e), b.full(), b.flagged()
{
    match op {
        Op::Insert { d, r } => {
            match (a, b) {
                (BloomFilter::V1(x), BloomFilter::V1(y)) => { v1::prop_insert_keeps(x, d, y, r, e); }
                (BloomFilter::V2(x), BloomFilter::V2(y)) => { v2::prop_insert_keeps(x, crate::key_hash::<crate::hash::wyhash::WyHasher>(d), y, r, crate::key_hash::<crate::hash::wyhash::WyHasher>(e)); }
                _ => {}
            }
        }
        Op::Union { o } => {
            match (a, o, b) {
                (BloomFilter::V1(x), BloomFilter::V1(z), BloomFilter::V1(y)) => { v1::prop_union_keeps(x, z, y, e); }
                (BloomFilter::V2(x), BloomFilter::V2(z), BloomFilter::V2(y)) => { v2::prop_union_keeps(x, z, y, crate::key_hash::<crate::hash::wyhash::WyHasher>(e)); }
                _ => {}
            }
        }
        Op::RefusedUnion => { lemma_same_member(b, a, e); }
        Op::Reload => { prop_round_trip(a, b); lemma_same_member(b, a, e); }
    }
}
pub proof fn lemma_same_member(b: BloomFilter, a: BloomFilter, e: Seq<u8>)
    requires b.same_state(&a), a.wf(), a.member(e)
    ensures b.member(e), a.full() ==> b.full(), a.flagged() ==> b.flagged()
{
    match (a, b) {
        (BloomFilter::V2(x), BloomFilter::V2(y)) => {
            let i = v2::bucket_of(crate::key_hash::<crate::hash::wyhash::WyHasher>(e), x.buckets@.len());
            assert(0 <= i < x.buckets@.len());
            assert(y.buckets@[i].b() == x.buckets@[i].b());
        }
        _ => {}
    }
}
/// C01: no sequence of operations loses an entry
pub proof fn prop_sequence_keeps(st: Seq<BloomFilter>, ops: Seq<Op>, e: Seq<u8>)
    requires st.len() == ops.len() + 1, st[0].full(), st[0].flagged(), st[0].member(e), forall|i: int| 0 <= i < ops.len() ==> step(#[trigger] st[i], ops[i], st[i + 1])
    ensures st.last().member(e)
    decreases ops.len()
{
    if ops.len() > 0 {
        assert(step(st[0], ops[0], st[1]));
        prop_step_keeps(st[0], ops[0], st[1], e);
        let s2 = st.skip(1); let o2 = ops.skip(1);
        assert forall|i: int| 0 <= i < o2.len() implies step(#[trigger] s2[i], o2[i], s2[i + 1]) by { assert(step(st[i + 1], ops[i + 1], st[i + 2])); }
        prop_sequence_keeps(s2, o2, e);
        assert(s2.last() == st.last());
    }
}
/// C01: an accepted bulk fill keeps every key
pub proof fn prop_fill_keeps(o: BloomFilter, keys: Seq<Seq<u8>>, f: BloomFilter, k: int)
    requires o.full(), o.flagged(), filled(o, keys, f, Ok(())), 0 <= k < keys.len()
    ensures f.member(keys[k])
{
    let (st, n) = choose|st: Seq<BloomFilter>, n: int| #[trigger] fill_path(st, keys, n) && st[0] == o && n == keys.len() && st[n] == f;
    lemma_fill(st, keys, n, k, n);
}
pub proof fn lemma_fill(st: Seq<BloomFilter>, keys: Seq<Seq<u8>>, n: int, k: int, m: int)
    requires fill_path(st, keys, n), st[0].full(), st[0].flagged(), 0 <= m <= n, k < n
    ensures st[m].full(), st[m].flagged(), 0 <= k < m ==> st[m].member(keys[k])
    decreases m
{
    if m > 0 {
        lemma_fill(st, keys, n, k, m - 1);
        let r: Result<bool, Error> = if st[m - 1].inserted(keys[m - 1], &st[m], Ok(true)) { Ok(true) } else { Ok(false) };
        assert(st[m - 1].inserted(keys[m - 1], &st[m], Ok(true)) || st[m - 1].inserted(keys[m - 1], &st[m], Ok(false)));
        assert(st[m - 1 + 1] == st[m]);
        assert(st[m - 1].inserted(keys[m - 1], &st[m], r));
        lemma_full_insert(st[m - 1], keys[m - 1], st[m], r);
        if 0 <= k < m - 1 { prop_step_keeps(st[m - 1], Op::Insert { d: keys[m - 1], r }, st[m], keys[k]); }
    }
}
pub proof fn lemma_full_insert(a: BloomFilter, d: Seq<u8>, b: BloomFilter, r: Result<bool, Error>)
    requires a.full(), a.flagged(), a.inserted(d, &b, r)
    ensures b.full(), b.flagged(), r is Ok ==> b.member(d)
{}
/// C10: the two loads of the version-detecting reader agree
pub proof fn prop_partial(a: BloomFilter, b: BloomFilter, s: Seq<u8>)
    requires a.decodes(s, false), b.decodes(s, true)
    ensures a is V1 == b is V1, a.s_capacity() == b.s_capacity(), a.s_fpp() == b.s_fpp(), a.s_count() == b.s_count(), a.s_size() == b.s_size(), a.s_data() == b.s_data(), loadable(s)
{
    let f = a.s_flags().bytes();
    assert(f[1] <= 3);
    assert(f[1] == s.subrange(0, 8)[1]);
}
