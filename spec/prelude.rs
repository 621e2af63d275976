// Verification prelude: shadow models of the std / external items used by poppy.
// Everything marked external_body or assume_specification here is an assumption
// about code outside the repository; the driver lists each of them as trusted.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, unused_parens, unused_braces, unused_assignments, unreachable_code)]
use vstd::prelude::*;

verus! {
pub mod vx {
use vstd::prelude::*;
pub use core::marker::PhantomData;
pub use crate::vx::io::{Stream, Read, Seek, SeekFrom, Write, BufWriter, BufReader};

// ------------------------------------------------------------------ bits
/// bit k of a byte, least significant first
pub open spec fn tb8(b: u8, k: usize) -> bool { b & (1u8 << k) != 0 }
pub open spec fn tb64(b: u64, k: u32) -> bool { b & (1u64 << k) != 0 }
/// bit i of a byte sequence
pub open spec fn bit(s: Seq<u8>, i: int) -> bool { tb8(s[i / 8], (i % 8) as usize) }
pub open spec fn bit64(s: Seq<u64>, i: int) -> bool { tb64(s[i / 64], (i % 64) as u32) }
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn popk8(b: u8, k: nat) -> nat decreases k { if k == 0 { 0 } else { popk8(b, (k - 1) as nat) + b2n(tb8(b, (k - 1) as usize)) } }
pub open spec fn pop8(b: u8) -> nat { popk8(b, 8) }
pub open spec fn popk64(b: u64, k: nat) -> nat decreases k { if k == 0 { 0 } else { popk64(b, (k - 1) as nat) + b2n(tb64(b, (k - 1) as u32)) } }
pub open spec fn pop64(b: u64) -> nat { popk64(b, 64) }
pub open spec fn ones(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ones(s.drop_last()) + pop8(s.last()) } }
pub open spec fn ones64(s: Seq<u64>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ones64(s.drop_last()) + pop64(s.last()) } }
pub open spec fn and8(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] & b[i]) }
pub open spec fn or8(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] | b[i]) }
pub open spec fn and64(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] & b[i]) }
pub open spec fn or64(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> { Seq::new(a.len(), |i: int| a[i] | b[i]) }
pub open spec fn zeros8(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn zeros64(n: nat) -> Seq<u64> { Seq::new(n, |i: int| 0u64) }

pub broadcast proof fn l8_or(a: u8, b: u8, k: usize) requires k < 8 ensures #[trigger] tb8(a | b, k) == (tb8(a, k) || tb8(b, k)) {
    assert(((a | b) & (1u8 << k) != 0) == ((a & (1u8 << k) != 0) || (b & (1u8 << k) != 0))) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l8_and(a: u8, b: u8, k: usize) requires k < 8 ensures #[trigger] tb8(a & b, k) == (tb8(a, k) && tb8(b, k)) {
    assert(((a & b) & (1u8 << k) != 0) == ((a & (1u8 << k) != 0) && (b & (1u8 << k) != 0))) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l8_not(a: u8, k: usize) requires k < 8 ensures #[trigger] tb8(!a, k) == !tb8(a, k) {
    assert(((!a) & (1u8 << k) != 0) == !(a & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l8_one(j: usize, k: usize) requires k < 8, j < 8 ensures #[trigger] tb8(1u8 << j, k) == (j == k) {
    assert(((1u8 << j) & (1u8 << k) != 0) == (j == k)) by (bit_vector) requires k < 8, j < 8;
}
pub broadcast proof fn l8_zero(k: usize) requires k < 8 ensures !#[trigger] tb8(0u8, k) {
    assert(0u8 & (1u8 << k) == 0) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l8_mask(a: u8, k: usize) requires k < 8 ensures ((#[trigger] (a & (1u8 << k))) == (1u8 << k)) == tb8(a, k) {
    assert((a & (1u8 << k) == (1u8 << k)) == (a & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l8_shr(a: u8, k: usize) requires k < 8 ensures ((#[trigger] ((a >> k) & 1u8)) == 1u8) == tb8(a, k), ((a >> k) & 1u8 != 0u8) == tb8(a, k) {
    assert((((a >> k) & 1u8) == 1u8) == (a & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
    assert((((a >> k) & 1u8) != 0u8) == (a & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l64_or(a: u64, b: u64, k: u32) requires k < 64 ensures #[trigger] tb64(a | b, k) == (tb64(a, k) || tb64(b, k)) {
    assert(((a | b) & (1u64 << k) != 0) == ((a & (1u64 << k) != 0) || (b & (1u64 << k) != 0))) by (bit_vector) requires k < 64;
}
pub broadcast proof fn l64_and(a: u64, b: u64, k: u32) requires k < 64 ensures #[trigger] tb64(a & b, k) == (tb64(a, k) && tb64(b, k)) {
    assert(((a & b) & (1u64 << k) != 0) == ((a & (1u64 << k) != 0) && (b & (1u64 << k) != 0))) by (bit_vector) requires k < 64;
}
pub broadcast proof fn l64_one(j: u32, k: u32) requires k < 64, j < 64 ensures #[trigger] tb64(1u64 << j, k) == (j == k) {
    assert(((1u64 << j) & (1u64 << k) != 0) == (j == k)) by (bit_vector) requires k < 64, j < 64;
}
pub broadcast proof fn l64_zero(k: u32) requires k < 64 ensures !#[trigger] tb64(0u64, k) {
    assert(0u64 & (1u64 << k) == 0) by (bit_vector) requires k < 64;
}
pub broadcast proof fn l64_mask(a: u64, k: u32) requires k < 64 ensures ((#[trigger] (a & (1u64 << k))) == (1u64 << k)) == tb64(a, k) {
    assert((a & (1u64 << k) == (1u64 << k)) == (a & (1u64 << k) != 0)) by (bit_vector) requires k < 64;
}
pub broadcast proof fn l64_shr(a: u64, k: u64) requires k < 64 ensures ((#[trigger] ((a >> k) & 1u64)) == 1u64) == tb64(a, k as u32), ((a >> k) & 1u64 != 0u64) == tb64(a, k as u32) {
    let kk = k as u32;
    assert((((a >> k) & 1u64) == 1u64) == (a & (1u64 << kk) != 0)) by (bit_vector) requires k < 64, kk == k as u32;
    assert((((a >> k) & 1u64) != 0u64) == (a & (1u64 << kk) != 0)) by (bit_vector) requires k < 64, kk == k as u32;
}
pub broadcast proof fn l64_or_id(a: u64, m: u64) ensures a & m == m ==> #[trigger] (a | m) == a {
    assert(a & m == m ==> (a | m) == a) by (bit_vector);
}
pub broadcast proof fn l8_or_id(a: u8, m: u8) ensures a & m == m ==> #[trigger] (a | m) == a {
    assert(a & m == m ==> (a | m) == a) by (bit_vector);
}
pub broadcast proof fn l_and7(x: usize) ensures #[trigger] (x & 7) == x % 8, (x & 7) < 8 {
    assert(x & 7 == x % 8) by (bit_vector);
}
pub broadcast proof fn l_and63(x: u64) ensures #[trigger] (x & 63) == x % 64, (x & 63) < 64 {
    assert(x & 63 == x % 64) by (bit_vector);
}
pub broadcast proof fn l_shr3(x: usize) ensures #[trigger] (x >> 3) == x / 8 {
    assert(x >> 3 == x / 8) by (bit_vector);
}
pub broadcast proof fn l_shr6(x: u64) ensures #[trigger] (x >> 6) == x / 64 {
    assert(x >> 6 == x / 64) by (bit_vector);
}
pub broadcast proof fn l_and_le(x: u64, m: u64) ensures #[trigger] (x & m) <= m, (x & m) <= x {
    assert(x & m <= m) by (bit_vector);
    assert(x & m <= x) by (bit_vector);
}
pub broadcast proof fn l_and_le_us(x: usize, m: usize) ensures #[trigger] (x & m) <= m, (x & m) <= x {
    assert(x & m <= m) by (bit_vector);
    assert(x & m <= x) by (bit_vector);
}
pub broadcast proof fn l8_xor(a: u8, b: u8, k: usize) requires k < 8 ensures #[trigger] tb8(a ^ b, k) == (tb8(a, k) != tb8(b, k)) {
    assert(((a ^ b) & (1u8 << k) != 0) == ((a & (1u8 << k) != 0) != (b & (1u8 << k) != 0))) by (bit_vector) requires k < 8;
}
pub broadcast proof fn l64_xor(a: u64, b: u64, k: u32) requires k < 64 ensures #[trigger] tb64(a ^ b, k) == (tb64(a, k) != tb64(b, k)) {
    assert(((a ^ b) & (1u64 << k) != 0) == ((a & (1u64 << k) != 0) != (b & (1u64 << k) != 0))) by (bit_vector) requires k < 64;
}
pub broadcast proof fn l_shl3(x: usize) requires x <= 0x1000_0000_0000_0000 ensures #[trigger] (x << 3) == 8 * x {
    assert(x <= 0x1000_0000_0000_0000 ==> x << 3 == mul(8, x)) by (bit_vector);
}
pub broadcast proof fn l_shl6(x: u64) requires x <= 0x200_0000_0000_0000 ensures #[trigger] (x << 6) == 64 * x {
    assert(x <= 0x200_0000_0000_0000 ==> x << 6 == mul(64, x)) by (bit_vector);
}
/// two bytes with the same bits are equal
pub proof fn l8_ext(a: u8, b: u8) requires forall|k: usize| k < 8 ==> tb8(a, k) == tb8(b, k) ensures a == b {
    assert(tb8(a, 0) == tb8(b, 0) && tb8(a, 1) == tb8(b, 1) && tb8(a, 2) == tb8(b, 2) && tb8(a, 3) == tb8(b, 3) && tb8(a, 4) == tb8(b, 4) && tb8(a, 5) == tb8(b, 5) && tb8(a, 6) == tb8(b, 6) && tb8(a, 7) == tb8(b, 7));
    assert(a == b) by (bit_vector) requires
        (a & (1u8 << 0usize) != 0) == (b & (1u8 << 0usize) != 0), (a & (1u8 << 1usize) != 0) == (b & (1u8 << 1usize) != 0),
        (a & (1u8 << 2usize) != 0) == (b & (1u8 << 2usize) != 0), (a & (1u8 << 3usize) != 0) == (b & (1u8 << 3usize) != 0),
        (a & (1u8 << 4usize) != 0) == (b & (1u8 << 4usize) != 0), (a & (1u8 << 5usize) != 0) == (b & (1u8 << 5usize) != 0),
        (a & (1u8 << 6usize) != 0) == (b & (1u8 << 6usize) != 0), (a & (1u8 << 7usize) != 0) == (b & (1u8 << 7usize) != 0);
}
pub broadcast group bits {
    l8_or, l8_and, l8_not, l8_one, l8_zero, l8_mask, l8_shr, l8_or_id, l64_or_id,
    l64_or, l64_and, l64_one, l64_zero, l64_mask, l64_shr,
    l_and7, l_and63, l_shr3, l_shr6, l_and_le, l_and_le_us, l8_xor, l64_xor, l_shl3, l_shl6,
}

pub proof fn lemma_pop8_le(b: u8, k: nat) ensures popk8(b, k) <= k decreases k { if k > 0 { lemma_pop8_le(b, (k - 1) as nat); } }
pub proof fn lemma_pop64_le(b: u64, k: nat) ensures popk64(b, k) <= k decreases k { if k > 0 { lemma_pop64_le(b, (k - 1) as nat); } }
pub broadcast proof fn lemma_ones_push(s: Seq<u8>, i: int) requires 0 <= i < s.len() ensures #[trigger] ones(s.take(i + 1)) == ones(s.take(i)) + pop8(s[i]) {
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub broadcast proof fn lemma_ones64_push(s: Seq<u64>, i: int) requires 0 <= i < s.len() ensures #[trigger] ones64(s.take(i + 1)) == ones64(s.take(i)) + pop64(s[i]) {
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub proof fn lemma_ones_le(s: Seq<u8>) ensures ones(s) <= 8 * s.len() decreases s.len() {
    if s.len() > 0 { lemma_ones_le(s.drop_last()); lemma_pop8_le(s.last(), 8); }
}
pub proof fn lemma_ones64_le(s: Seq<u64>) ensures ones64(s) <= 64 * s.len() decreases s.len() {
    if s.len() > 0 { lemma_ones64_le(s.drop_last()); lemma_pop64_le(s.last(), 64); }
}
pub broadcast proof fn lemma_take_all8(s: Seq<u8>) ensures #[trigger] s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn lemma_take_all64(s: Seq<u64>) ensures #[trigger] s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }

pub open spec fn is_pow2(x: int) -> bool { exists|k: nat| k < 64 && x == vstd::arithmetic::power2::pow2(k) }

pub assume_specification [u8::count_ones] (x: u8) -> (r: u32) ensures r == pop8(x), r <= 8;
pub assume_specification [u8::count_zeros] (x: u8) -> (r: u32) ensures r == 8 - pop8(x), r <= 8;
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32) ensures r == pop64(x), r <= 64;
pub assume_specification [u64::count_zeros] (x: u64) -> (r: u32) ensures r == 64 - pop64(x), r <= 64;
pub assume_specification [u64::is_power_of_two] (x: u64) -> (r: bool) ensures r == (x != 0 && x & (x - 1) as u64 == 0);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool) ensures r == (x != 0 && x & (x - 1) as usize == 0);
pub uninterp spec fn npow2(x: u64) -> u64;
pub assume_specification [u64::next_power_of_two] (x: u64) -> (r: u64) requires x <= 0x8000_0000_0000_0000 ensures r == npow2(x), r >= x, r >= 1, r & (r - 1) as u64 == 0, x >= 2 ==> r < 2 * x, x < 2 ==> r == 1;

pub broadcast proof fn l_update_same(s: Seq<u64>, i: int, x: u64) requires 0 <= i < s.len(), x == s[i] ensures #[trigger] s.update(i, x) == s { assert(s.update(i, x) =~= s); }
pub broadcast proof fn l_empty_add(e: Seq<u8>, x: Seq<u8>) requires e.len() == 0 ensures #[trigger] (e + x) == x { assert(e + x =~= x); }

/// a power of two, by its exponent
pub proof fn l_pow2_exp(m: u64) -> (n: nat)
    requires m != 0, m & ((m - 1) as u64) == 0
    ensures m == vstd::arithmetic::power2::pow2(n), n < 64
    decreases m
{
    if m == 1 { vstd::arithmetic::power2::lemma2_to64(); 0 } else {
        assert(m % 2 == 0 && (m / 2) & sub(m / 2, 1) == 0 && m / 2 != 0) by (bit_vector) requires m > 1, m & sub(m, 1) == 0;
        let k = l_pow2_exp(m / 2);
        vstd::arithmetic::power2::lemma_pow2_unfold(k + 1);
        if k + 1 >= 64 {
            vstd::arithmetic::power2::lemma2_to64_rest();
            if k + 1 > 64 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(64, k + 1); }
        }
        k + 1
    }
}
/// x & (m-1) == x % m for a power of two m
pub broadcast proof fn l_pow2_mask(x: u64, m: u64)
    requires m != 0, m & ((m - 1) as u64) == 0,
    ensures #[trigger] (x & ((m - 1) as u64)) == x % m
{
    let n = l_pow2_exp(m);
    vstd::bits::lemma_u64_low_bits_mask_is_mod(x, n);
}

// ------------------------------------------------------------------ asserts, panics
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }

// ------------------------------------------------------------------ containers
/// allocation of n elements; the bound is the largest request that cannot
/// overflow an allocation size for the element types in the crate
pub open spec fn alloc_ok(n: int) -> bool { n <= 0x4_0000_0000_0000 }
#[verifier::external_body]
pub fn vx_vec_repeat<T>(v: T, n: usize) -> (r: Vec<T>) requires alloc_ok(n as int)
    ensures r@.len() == n, r@ == Seq::new(n as nat, |i: int| v) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) { unimplemented!() }

pub trait VxSlice<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_slice(&self) -> (r: &[T]) ensures r@ == self.vx_seq(); }
impl<T> VxSlice<T> for [T] { open spec fn vx_seq(&self) -> Seq<T> { self@ } fn vx_slice(&self) -> (r: &[T]) { self } }
impl<T, const N: usize> VxSlice<T> for [T; N] { open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_slice(&self) -> (r: &[T]) { self } }
impl<T> VxSlice<T> for Vec<T> { open spec fn vx_seq(&self) -> Seq<T> { self@ } fn vx_slice(&self) -> (r: &[T]) { self.as_slice() } }
impl<T, S: VxSlice<T> + ?Sized> VxSlice<T> for &S { open spec fn vx_seq(&self) -> Seq<T> { (**self).vx_seq() } fn vx_slice(&self) -> (r: &[T]) { (**self).vx_slice() } }
#[verifier::external_body]
pub fn vx_subrange<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body]
pub fn vx_copy_range<T: Copy>(d: &mut [T], a: usize, b: usize, s: &[T]) requires a <= b <= old(d)@.len(), s@.len() == b - a
    ensures final(d)@ == old(d)@.take(a as int) + s@ + old(d)@.skip(b as int) { unimplemented!() }
pub fn vx_fill<T: Copy>(d: &mut [T], v: T) ensures final(d)@ == Seq::new(old(d)@.len(), |i: int| v)
{
    let n = d.len();
    let mut i = 0;
    while i < n invariant i <= n, n == d@.len(), d@.len() == old(d)@.len(), forall|k: int| 0 <= k < i ==> d@[k] == v decreases n - i { d[i] = v; i = i + 1; }
    assert(d@ =~= Seq::new(old(d)@.len(), |i: int| v));
}
pub assume_specification<T, const N: usize> [<[T; N]>::as_mut_slice] (a: &mut [T; N]) -> (r: &mut [T])
    ensures r@ == old(a)@, final(a)@ == final(r)@;
/// integer values read through a reference or directly
pub trait VxInt { spec fn vx_spec(&self) -> u64; fn vx_val(&self) -> (r: u64) ensures r == self.vx_spec(); }
impl VxInt for u64 { open spec fn vx_spec(&self) -> u64 { *self } fn vx_val(&self) -> (r: u64) { *self } }
impl<T: VxInt> VxInt for &T { open spec fn vx_spec(&self) -> u64 { (**self).vx_spec() } fn vx_val(&self) -> (r: u64) { (**self).vx_val() } }

/// what an iterator, or a vector emptied by `pop`, still holds
pub trait VxRest<T> { spec fn vx_rest(&self) -> Seq<T>; }
impl<T> VxRest<T> for Vec<T> { open spec fn vx_rest(&self) -> Seq<T> { self@ } }
impl<T> VxRest<T> for VxIntoIter<T> { open spec fn vx_rest(&self) -> Seq<T> { self.rest() } }
impl<'a, T> VxRest<T> for VxIter<'a, T> { open spec fn vx_rest(&self) -> Seq<T> { self.rest() } }
pub struct VxIntoIter<T> { v: Vec<T> }
impl<T> VxIntoIter<T> {
    pub closed spec fn rest(&self) -> Seq<T> { self.v@ }
    pub fn next(&mut self) -> (r: Option<T>) ensures
        old(self).rest().len() == 0 ==> r is None && *final(self) == *old(self),
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    {
        if self.v.len() == 0 { None } else {
            let ghost o = self.v@;
            let x = self.v.remove(0);
            assert(self.v@ =~= o.skip(1));
            Some(x)
        }
    }
}
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VxIntoIter<T>) ensures r.rest() == v@ { VxIntoIter { v } }
pub struct VxIter<'a, T> { s: &'a [T], i: usize }
impl<'a, T> VxIter<'a, T> {
    pub closed spec fn rest(&self) -> Seq<T> { if self.i <= self.s@.len() { self.s@.skip(self.i as int) } else { Seq::empty() } }
    pub fn next(&mut self) -> (r: Option<&'a T>) ensures
        old(self).rest().len() == 0 ==> r is None && *final(self) == *old(self),
        old(self).rest().len() > 0 ==> r == Some(&old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    {
        if self.i >= self.s.len() { None } else {
            let ghost o = self.rest();
            let x = &self.s[self.i];
            self.i = self.i + 1;
            assert(self.rest() =~= o.skip(1));
            Some(x)
        }
    }
}
pub fn vx_iter<'a, T>(s: &'a [T]) -> (r: VxIter<'a, T>) ensures r.rest() == s@ { assert(s@.skip(0) =~= s@); VxIter { s, i: 0 } }

#[verifier::external_body]
pub struct VxChunks<'a> { s: &'a [u8] }
impl<'a> VxChunks<'a> {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn remainder(&self) -> (r: &'a [u8]) ensures r@ == self.data().skip((self.data().len() - self.data().len() % self.size()) as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>) ensures
        final(self).data() == old(self).data(), final(self).size() == old(self).size(),
        old(self).pos() + old(self).size() <= old(self).data().len() ==> r is Some && r->0@ == old(self).data().subrange(old(self).pos() as int, (old(self).pos() + old(self).size()) as int) && final(self).pos() == old(self).pos() + old(self).size(),
        old(self).pos() + old(self).size() > old(self).data().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_chunks_exact<'a>(s: &'a [u8], n: usize) -> (r: VxChunks<'a>) requires n > 0 ensures r.data() == s@, r.size() == n, r.pos() == 0 { unimplemented!() }

// ------------------------------------------------------------------ conversions
pub trait Default: Sized { spec fn default_spec() -> Self; fn default() -> (r: Self) ensures r == Self::default_spec(); }
impl Default for u64 { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for u8 { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for u16 { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for u32 { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for usize { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for i64 { open spec fn default_spec() -> Self { 0 } fn default() -> (r: Self) { 0 } }
impl Default for f64 { open spec fn default_spec() -> Self { f_of(0) } fn default() -> (r: Self) { vx_f(0) } }
impl<T> Default for Vec<T> { uninterp spec fn default_spec() -> Self; #[verifier::external_body] fn default() -> (r: Self) { Vec::new() } }
pub broadcast axiom fn ax_vec_default<T>() ensures #[trigger] <Vec<T> as Default>::default_spec()@ == Seq::<T>::empty();
impl Default for bool { open spec fn default_spec() -> Self { false } fn default() -> (r: Self) { false } }
impl<T> Default for PhantomData<T> { open spec fn default_spec() -> Self { PhantomData } fn default() -> (r: Self) { PhantomData } }

pub trait AsRef<T: ?Sized> { spec fn as_ref_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }
impl<T> AsRef<[T]> for &&[T] { open spec fn as_ref_spec(&self) -> &[T] { **self } fn as_ref(&self) -> (r: &[T]) { **self } }
impl<T> AsRef<[T]> for &[T] { open spec fn as_ref_spec(&self) -> &[T] { *self } fn as_ref(&self) -> (r: &[T]) { *self } }
impl<T, const N: usize> AsRef<[T]> for [T; N] { uninterp spec fn as_ref_spec(&self) -> &[T]; #[verifier::external_body] fn as_ref(&self) -> (r: &[T]) { self } }
pub broadcast axiom fn ax_array_as_ref<const N: usize>(a: [u8; N]) ensures (#[trigger] AsRef::<[u8]>::as_ref_spec(&a))@ == a@;

pub open spec fn str_bytes(s: &str) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub open spec fn string_bytes(s: &String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == vstd::utf8::encode_utf8(s@).len();
pub trait TryFrom<T>: Sized { type Error; spec fn try_from_ok(t: T, r: Result<Self, Self::Error>) -> bool; spec fn try_from_pre(t: T) -> bool;
    fn try_from(t: T) -> (r: Result<Self, Self::Error>) requires Self::try_from_pre(t) ensures Self::try_from_ok(t, r); }
pub trait TryInto<T>: Sized { type Error; spec fn try_into_ok(self, r: Result<T, Self::Error>) -> bool; spec fn try_into_pre(self) -> bool;
    fn try_into(self) -> (r: Result<T, Self::Error>) requires self.try_into_pre() ensures self.try_into_ok(r); }
impl<T, U: TryFrom<T>> TryInto<U> for T { type Error = U::Error;
    open spec fn try_into_ok(self, r: Result<U, U::Error>) -> bool { U::try_from_ok(self, r) }
    open spec fn try_into_pre(self) -> bool { U::try_from_pre(self) }
    fn try_into(self) -> (r: Result<U, U::Error>) { U::try_from(self) } }

// little / big endian
pub open spec fn le64(x: u64) -> Seq<u8> { seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8, ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8] }
pub open spec fn un64(s: Seq<u8>) -> u64 { (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24) | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56) }
pub open spec fn be64(x: u64) -> Seq<u8> { le64(x).reverse() }
pub proof fn lemma_un_le(x: u64) ensures un64(le64(x)) == x, le64(x).len() == 8 {
    let a0 = (x & 0xff) as u8; let a1 = ((x >> 8) & 0xff) as u8; let a2 = ((x >> 16) & 0xff) as u8; let a3 = ((x >> 24) & 0xff) as u8;
    let a4 = ((x >> 32) & 0xff) as u8; let a5 = ((x >> 40) & 0xff) as u8; let a6 = ((x >> 48) & 0xff) as u8; let a7 = ((x >> 56) & 0xff) as u8;
    assert((a0 as u64) | ((a1 as u64) << 8) | ((a2 as u64) << 16) | ((a3 as u64) << 24) | ((a4 as u64) << 32) | ((a5 as u64) << 40) | ((a6 as u64) << 48) | ((a7 as u64) << 56) == x) by (bit_vector)
        requires a0 == (x & 0xff) as u8, a1 == ((x >> 8) & 0xff) as u8, a2 == ((x >> 16) & 0xff) as u8, a3 == ((x >> 24) & 0xff) as u8, a4 == ((x >> 32) & 0xff) as u8, a5 == ((x >> 40) & 0xff) as u8, a6 == ((x >> 48) & 0xff) as u8, a7 == ((x >> 56) & 0xff) as u8;
}
/// parts of concatenations
pub proof fn lemma_sub_head<T>(p: Seq<T>, q: Seq<T>, i: int, j: int) requires 0 <= i <= j <= p.len() ensures (p + q).subrange(i, j) == p.subrange(i, j) { assert((p + q).subrange(i, j) =~= p.subrange(i, j)); }
pub proof fn lemma_sub_tail<T>(p: Seq<T>, q: Seq<T>, i: int, j: int) requires 0 <= i <= j <= q.len() ensures (p + q).subrange(p.len() + i, p.len() + j) == q.subrange(i, j) { assert((p + q).subrange(p.len() + i, p.len() + j) =~= q.subrange(i, j)); }
pub proof fn lemma_skip_head<T>(p: Seq<T>, q: Seq<T>) ensures (p + q).skip(p.len() as int) == q, (p + q).subrange(p.len() as int, (p + q).len() as int) == q { assert((p + q).skip(p.len() as int) =~= q); assert((p + q).subrange(p.len() as int, (p + q).len() as int) =~= q); }
/// five words one after the other
pub open spec fn five(a: u64, b: u64, c: u64, d: u64, e: u64) -> Seq<u8> { le64(a) + le64(b) + le64(c) + le64(d) + le64(e) }
pub proof fn lemma_five(a: u64, b: u64, c: u64, d: u64, e: u64) ensures ({ let h = five(a, b, c, d, e);
    h.len() == 40 && h.subrange(0, 8) == le64(a) && h.subrange(8, 16) == le64(b) && h.subrange(16, 24) == le64(c) && h.subrange(24, 32) == le64(d) && h.subrange(32, 40) == le64(e) })
{
    hide(le64); hide(un64);
    lemma_un_le(a); lemma_un_le(b); lemma_un_le(c); lemma_un_le(d); lemma_un_le(e);
    let p1 = le64(a) + le64(b); let p2 = p1 + le64(c); let p3 = p2 + le64(d);
    lemma_sub_head(le64(a), le64(b), 0, 8); lemma_sub_head(p1, le64(c), 0, 8); lemma_sub_head(p2, le64(d), 0, 8); lemma_sub_head(p3, le64(e), 0, 8); assert(le64(a).subrange(0, 8) =~= le64(a));
    lemma_skip_head(le64(a), le64(b)); lemma_sub_head(p1, le64(c), 8, 16); lemma_sub_head(p2, le64(d), 8, 16); lemma_sub_head(p3, le64(e), 8, 16);
    lemma_skip_head(p1, le64(c)); lemma_sub_head(p2, le64(d), 16, 24); lemma_sub_head(p3, le64(e), 16, 24);
    lemma_skip_head(p2, le64(d)); lemma_sub_head(p3, le64(e), 24, 32);
    lemma_skip_head(p3, le64(e));
}
/// the same in front of something
pub proof fn lemma_five_in(h: Seq<u8>, q: Seq<u8>) requires h.len() == 40
    ensures ({ let s = h + q; s.subrange(0, 8) == h.subrange(0, 8) && s.subrange(8, 16) == h.subrange(8, 16) && s.subrange(16, 24) == h.subrange(16, 24) && s.subrange(24, 32) == h.subrange(24, 32) && s.subrange(32, 40) == h.subrange(32, 40) })
{ lemma_sub_head(h, q, 0, 8); lemma_sub_head(h, q, 8, 16); lemma_sub_head(h, q, 16, 24); lemma_sub_head(h, q, 24, 32); lemma_sub_head(h, q, 32, 40); }
#[verifier::external_body]
pub fn vx_u64_to_le(x: u64) -> (r: [u8; 8]) ensures r@ == le64(x) { x.to_le_bytes() }
#[verifier::external_body]
pub fn vx_u64_to_be(x: u64) -> (r: [u8; 8]) ensures r@ == be64(x) { x.to_be_bytes() }
#[verifier::external_body]
pub fn vx_u64_from_le(b: [u8; 8]) -> (r: u64) ensures r == un64(b@) { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_f64_to_le(x: f64) -> (r: [u8; 8]) ensures r@ == le64(f_bits(x)) { x.to_le_bytes() }
#[verifier::external_body]
pub fn vx_f64_from_le(b: [u8; 8]) -> (r: f64) ensures r == f_of(un64(b@)) { f64::from_le_bytes(b) }

// ------------------------------------------------------------------ floats: uninterpreted
pub uninterp spec fn f_of(bits: u64) -> f64;
pub uninterp spec fn f_bits(x: f64) -> u64;
pub broadcast axiom fn ax_f_bits(x: f64) ensures f_of(#[trigger] f_bits(x)) == x;
pub broadcast axiom fn ax_f_of(x: u64) ensures f_bits(#[trigger] f_of(x)) == x;
pub uninterp spec fn s_fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fneg(a: f64) -> f64;
pub uninterp spec fn s_fceil(a: f64) -> f64;
pub uninterp spec fn s_fround(a: f64) -> f64;
pub uninterp spec fn s_ffloor(a: f64) -> f64;
pub uninterp spec fn s_fabs(a: f64) -> f64;
pub uninterp spec fn s_fln(a: f64) -> f64;
pub uninterp spec fn s_fexp(a: f64) -> f64;
pub uninterp spec fn s_fpowf(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fmax(a: f64, b: f64) -> f64;
pub uninterp spec fn s_fmin(a: f64, b: f64) -> f64;
pub uninterp spec fn s_u2f(a: u64) -> f64;
pub uninterp spec fn s_f2u(a: f64) -> u64;
pub uninterp spec fn s_feq(a: f64, b: f64) -> bool;
pub uninterp spec fn s_flt(a: f64, b: f64) -> bool;
pub open spec fn s_in_range(lo: f64, hi: f64, x: f64) -> bool { s_fle(lo, x) && s_fle(x, hi) }
pub uninterp spec fn s_fle(a: f64, b: f64) -> bool;
#[verifier::external_body] pub fn vx_f(b: u64) -> (r: f64) ensures r == f_of(b) { f64::from_bits(b) }
#[verifier::external_body] pub fn vx_f_bits(b: f64) -> (r: u64) ensures r == f_bits(b) { b.to_bits() }
#[verifier::external_body] pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == s_fadd(a, b) { a + b }
#[verifier::external_body] pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == s_fsub(a, b) { a - b }
#[verifier::external_body] pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == s_fmul(a, b) { a * b }
#[verifier::external_body] pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == s_fdiv(a, b) { a / b }
#[verifier::external_body] pub fn vx_fneg(a: f64) -> (r: f64) ensures r == s_fneg(a) { -a }
#[verifier::external_body] pub fn vx_fceil(a: f64) -> (r: f64) ensures r == s_fceil(a) { a.ceil() }
#[verifier::external_body] pub fn vx_fround(a: f64) -> (r: f64) ensures r == s_fround(a) { a.round() }
#[verifier::external_body] pub fn vx_ffloor(a: f64) -> (r: f64) ensures r == s_ffloor(a) { a.floor() }
#[verifier::external_body] pub fn vx_fabs(a: f64) -> (r: f64) ensures r == s_fabs(a) { a.abs() }
#[verifier::external_body] pub fn vx_fln(a: f64) -> (r: f64) ensures r == s_fln(a) { a.ln() }
#[verifier::external_body] pub fn vx_fexp(a: f64) -> (r: f64) ensures r == s_fexp(a) { a.exp() }
#[verifier::external_body] pub fn vx_fpowf(a: f64, b: f64) -> (r: f64) ensures r == s_fpowf(a, b) { a.powf(b) }
#[verifier::external_body] pub fn vx_fmax(a: f64, b: f64) -> (r: f64) ensures r == s_fmax(a, b) { a.max(b) }
#[verifier::external_body] pub fn vx_fmin(a: f64, b: f64) -> (r: f64) ensures r == s_fmin(a, b) { a.min(b) }
#[verifier::external_body] pub fn vx_u2f(a: u64) -> (r: f64) ensures r == s_u2f(a) { a as f64 }
#[verifier::external_body] pub fn vx_f2u(a: f64) -> (r: u64) ensures r == s_f2u(a) { a as u64 }
#[verifier::external_body] pub fn vx_feq(a: f64, b: f64) -> (r: bool) ensures r == s_feq(a, b) { a == b }
#[verifier::external_body] pub fn vx_fne(a: f64, b: f64) -> (r: bool) ensures r == !s_feq(a, b) { a != b }
#[verifier::external_body] pub fn vx_flt(a: f64, b: f64) -> (r: bool) ensures r == s_flt(a, b) { a < b }
#[verifier::external_body] pub fn vx_fgt(a: f64, b: f64) -> (r: bool) ensures r == s_flt(b, a) { a > b }
#[verifier::external_body] pub fn vx_fle(a: f64, b: f64) -> (r: bool) ensures r == s_fle(a, b) { a <= b }
#[verifier::external_body] pub fn vx_fge(a: f64, b: f64) -> (r: bool) ensures r == s_fle(b, a) { a >= b }
pub fn vx_f_in_range(lo: f64, hi: f64, x: f64) -> (r: bool) ensures r == s_in_range(lo, hi, x) { vx_fle(lo, x) && vx_fle(x, hi) }
/// assumed IEEE-754 facts about ceil(n / 2^k), checked by probes in the harness
pub broadcast axiom fn ax_ceil8(n: u64) ensures
    n <= 0x20_0000_0000_0000 ==> #[trigger] s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4020000000000000u64)))) == (n + 7) / 8,
    n > 0x20_0000_0000_0000 ==> s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4020000000000000u64)))) >= 0x4_0000_0000_0000,
    s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4020000000000000u64)))) <= 0x2000_0000_0000_0000;
pub broadcast axiom fn ax_ceil64(n: u64) ensures
    n <= 0x20_0000_0000_0000 ==> #[trigger] s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4050000000000000u64)))) == (n + 63) / 64,
    n > 0x20_0000_0000_0000 ==> s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4050000000000000u64)))) >= 0x8000_0000_0000,
    s_f2u(s_fceil(s_fdiv(s_u2f(n), f_of(0x4050000000000000u64)))) <= 0x400_0000_0000_0000;
/// assumed IEEE-754 facts, checked by probes in the harness: == is symmetric; a positive quotient rounds up to at least 1
pub axiom fn ax_feq_sym(a: f64, b: f64) ensures s_feq(a, b) == s_feq(b, a);
pub axiom fn ax_ceil_pos(n: u64, d: u64) ensures n > 0 ==> s_f2u(s_fceil(s_fdiv(s_u2f(n), s_u2f(d)))) >= 1, n > 0 ==> s_f2u(s_fceil(s_fdiv(s_fmul(s_fln(f_of(0x4000000000000000u64)), s_u2f(n)), s_u2f(d)))) >= 1;
pub axiom fn ax_ceil_int(n: u64) ensures n > 0 ==> s_f2u(s_fceil(s_u2f(n))) >= 1;
pub axiom fn ax_max_one(x: f64) ensures s_f2u(s_fmax(x, f_of(0x3ff0000000000000u64))) >= 1;
pub broadcast group floats { ax_f_bits, ax_f_of, ax_ceil8, ax_ceil64 }

// ------------------------------------------------------------------ hashing
/// the n low bytes of x, least significant first
pub open spec fn le_bytes(x: int, n: nat) -> Seq<u8> { Seq::new(n, |k: int| ((x / vstd::arithmetic::power::pow(256, k as nat)) % 256) as u8) }
#[verifier::external_body]
pub fn vx_u16_to_le(x: u16) -> (r: [u8; 2]) ensures r@ == le_bytes(x as int, 2) { x.to_le_bytes() }
#[verifier::external_body]
pub fn vx_u32_to_le(x: u32) -> (r: [u8; 4]) ensures r@ == le_bytes(x as int, 4) { x.to_le_bytes() }
#[verifier::external_body]
pub fn vx_u128_to_le(x: u128) -> (r: [u8; 16]) ensures r@ == le_bytes(x as int, 16) { x.to_le_bytes() }
pub mod std_ {
pub mod hash { pub use crate::vx::{Hash, Hasher}; }
pub mod fmt { pub use crate::vx::vfmt::*; }
}
/// core::hash::Hasher; the provided methods are those of the standard library
pub trait Hasher: Sized {
    spec fn write_spec(&self, b: Seq<u8>) -> Self;
    spec fn finish_spec(&self) -> u64;
    fn finish(&self) -> (r: u64) ensures r == self.finish_spec();
    fn write(&mut self, bytes: &[u8]) ensures *final(self) == old(self).write_spec(bytes@);
    fn write_u8(&mut self, i: u8) ensures *final(self) == old(self).write_spec(seq![i]) { let b = [i]; assert(b@ =~= seq![i]); self.write(b.as_slice()) }
    fn write_u16(&mut self, i: u16) ensures *final(self) == old(self).write_spec(le_bytes(i as int, 2)) { let b = vx_u16_to_le(i); assert(b@ =~= le_bytes(i as int, 2)); self.write(b.as_slice()) }
    fn write_u32(&mut self, i: u32) ensures *final(self) == old(self).write_spec(le_bytes(i as int, 4)) { let b = vx_u32_to_le(i); assert(b@ =~= le_bytes(i as int, 4)); self.write(b.as_slice()) }
    fn write_u64(&mut self, i: u64) ensures *final(self) == old(self).write_spec(le64(i)) { let b = vx_u64_to_le(i); assert(b@ =~= le64(i)); self.write(b.as_slice()) }
    fn write_u128(&mut self, i: u128) ensures *final(self) == old(self).write_spec(le_bytes(i as int, 16)) { let b = vx_u128_to_le(i); assert(b@ =~= le_bytes(i as int, 16)); self.write(b.as_slice()) }
    fn write_usize(&mut self, i: usize) ensures *final(self) == old(self).write_spec(le64(i as u64)) { let b = vx_u64_to_le(i as u64); assert(b@ =~= le64(i as u64)); self.write(b.as_slice()) }
    fn write_i8(&mut self, i: i8) ensures *final(self) == old(self).write_spec(seq![i as u8]) { self.write_u8(i as u8) }
    fn write_i16(&mut self, i: i16) ensures *final(self) == old(self).write_spec(le_bytes(i as u16 as int, 2)) { self.write_u16(i as u16) }
    fn write_i32(&mut self, i: i32) ensures *final(self) == old(self).write_spec(le_bytes(i as u32 as int, 4)) { self.write_u32(i as u32) }
    fn write_i64(&mut self, i: i64) ensures *final(self) == old(self).write_spec(le64((i as u64))) { self.write_u64(i as u64) }
    fn write_i128(&mut self, i: i128) ensures *final(self) == old(self).write_spec(le_bytes(i as u128 as int, 16)) { self.write_u128(i as u128) }
    fn write_isize(&mut self, i: isize) ensures *final(self) == old(self).write_spec(le64(i as usize as u64)) { self.write_usize(i as usize) }
}
pub trait Hash {
    spec fn hash_spec<H: Hasher>(&self, h: H) -> H;
    fn hash<H: Hasher>(&self, state: &mut H) ensures *final(state) == self.hash_spec(*old(state));
}
impl Hash for u8 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(seq![(*self)]) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_u8(*self) } }
impl Hash for u16 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self) as int, 2)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_u16(*self) } }
impl Hash for u32 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self) as int, 4)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_u32(*self) } }
impl Hash for u64 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le64((*self))) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_u64(*self) } }
impl Hash for u128 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self) as int, 16)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_u128(*self) } }
impl Hash for usize { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le64((*self) as u64)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_usize(*self) } }
impl Hash for i8 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(seq![(*self as u8)]) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_i8(*self) } }
impl Hash for i16 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self as u16) as int, 2)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_i16(*self) } }
impl Hash for i32 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self as u32) as int, 4)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_i32(*self) } }
impl Hash for i64 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le64((*self as u64))) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_i64(*self) } }
impl Hash for i128 { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le_bytes((*self as u128) as int, 16)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_i128(*self) } }
impl Hash for isize { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le64((*self as usize) as u64)) } fn hash<H: Hasher>(&self, state: &mut H) { state.write_isize(*self) } }
/// assumed, from the standard library: a string is followed by 0xff, a slice preceded by its length, an Option by its discriminant
pub open spec fn text_hash<H: Hasher>(b: Seq<u8>, h: H) -> H { h.write_spec(b).write_spec(seq![0xffu8]) }
pub open spec fn slice_hash<H: Hasher>(b: Seq<u8>, h: H) -> H { h.write_spec(le64(b.len() as u64)).write_spec(b) }
impl<T: Hash> Hash for Option<T> { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { match *self { None => h.write_spec(le64(0)), Some(x) => x.hash_spec(h.write_spec(le64(1))) } } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for &[u8] { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { slice_hash((*self)@, h) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for Vec<u8> { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { slice_hash(self@, h) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for &str { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { text_hash(str_bytes(*self), h) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl Hash for String { open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { text_hash(string_bytes(self), h) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }

// ------------------------------------------------------------------ formatted output
/// bytes produced by an implementation of Display
pub uninterp spec fn shown<T: ?Sized>(x: &T) -> Seq<u8>;
/// the same with a fixed number of decimals
pub uninterp spec fn fixed<T: ?Sized>(x: &T, n: int) -> Seq<u8>;
/// decimal digits of a number
pub uninterp spec fn decimal(n: int) -> Seq<u8>;
pub broadcast axiom fn ax_shown_string(x: &String) ensures #[trigger] shown::<String>(x) == string_bytes(x);
pub broadcast axiom fn ax_shown_str(x: &str) ensures #[trigger] shown::<str>(x) == str_bytes(x);
pub broadcast axiom fn ax_shown_ref<T: ?Sized>(x: &&T) ensures #[trigger] shown::<&T>(x) == shown::<T>(*x);
pub broadcast axiom fn ax_shown_u8(x: &u8) ensures #[trigger] shown::<u8>(x) == decimal(*x as int);
pub broadcast axiom fn ax_shown_u64(x: &u64) ensures #[trigger] shown::<u64>(x) == decimal(*x as int);
pub broadcast axiom fn ax_shown_usize(x: &usize) ensures #[trigger] shown::<usize>(x) == decimal(*x as int);
/// what is shown of a value is what its implementation writes
pub broadcast axiom fn ax_shown_fmt<T: Display>(x: &T) ensures #[trigger] shown::<T>(x) == x.shows();
pub broadcast group shows { ax_shown_u8, ax_shown_u64, ax_shown_usize, ax_shown_string, ax_shown_str, ax_shown_ref, ax_shown_fmt }
pub use crate::vx::vfmt::Display;
pub mod vfmt {
use vstd::prelude::*;
use crate::vx::*;
pub struct Error;
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter<'a> { x: &'a u8 }
impl<'a> Formatter<'a> {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result) ensures r is Ok ==> final(self).text() == old(self).text() + str_bytes(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_show<T: ?Sized>(&mut self, x: &T) -> (r: Result) ensures r is Ok ==> final(self).text() == old(self).text() + shown(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_fixed<T: ?Sized>(&mut self, x: &T, n: usize) -> (r: Result) ensures r is Ok ==> final(self).text() == old(self).text() + fixed(x, n as int) { unimplemented!() }
}
pub trait Display {
    spec fn shows(&self) -> Seq<u8>;
    fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) ensures r is Ok ==> final(f).text() == old(f).text() + self.shows();
}
}

/// the external wyhash crate: an opaque state machine
#[verifier::external_body]
pub struct WyHash { x: u64 }
pub uninterp spec fn wy_seed(s: u64) -> WyHash;
pub uninterp spec fn wy_write(h: WyHash, b: Seq<u8>) -> WyHash;
pub uninterp spec fn wy_finish(h: WyHash) -> u64;
impl Clone for WyHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl WyHash {
    #[verifier::external_body] pub fn with_seed(s: u64) -> (r: Self) ensures r == wy_seed(s) { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, b: &[u8]) ensures *final(self) == wy_write(*old(self), b@) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == wy_finish(*self) { unimplemented!() }
}

// ------------------------------------------------------------------ io
pub mod io {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Error { k: u8 }
pub enum ErrorKind { UnexpectedEof, InvalidData, InvalidInput, Other, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted,
    NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, TimedOut, WriteZero, StorageFull, Interrupted, Unsupported, OutOfMemory }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Error {
    #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
    #[verifier::external_body] pub fn new<T>(k: ErrorKind, m: T) -> (r: Error) { unimplemented!() }
    #[verifier::external_body] pub fn other<T>(m: T) -> (r: Error) { unimplemented!() }
}
impl ErrorKind { #[verifier::external_body] pub fn into(self) -> (r: Error) { unimplemented!() } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// a readable / seekable byte stream: contents, position, and whether the
/// underlying device is free of failures
pub trait Stream {
    spec fn stream(&self) -> Seq<u8>;
    spec fn pos(&self) -> nat;
    spec fn reliable(&self) -> bool;
}
pub open spec fn stream_max() -> int { 0x4_0000_0000_0000 }
/// assumed: no stream holds 2^50 bytes or more
pub axiom fn ax_stream_len<S: Stream>(s: &S) ensures s.stream().len() < stream_max(), s.pos() < 0x8000_0000_0000_0000;

pub trait Read: Stream {
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures
            (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> {
                &&& (*old(self)).pos() + old(buf)@.len() <= (*old(self)).stream().len() || old(buf)@.len() == 0
                &&& (*final(self)).pos() == (*old(self)).pos() + old(buf)@.len()
                &&& old(buf)@.len() == 0 ==> final(buf)@ == Seq::<u8>::empty()
                &&& old(buf)@.len() > 0 ==> final(buf)@ == (*old(self)).stream().subrange((*old(self)).pos() as int, ((*old(self)).pos() + old(buf)@.len()) as int)
            },
            (*old(self)).reliable() && (*old(self)).pos() + old(buf)@.len() <= (*old(self)).stream().len() ==> r is Ok;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures
            (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(),
            r is Ok ==> {
                &&& final(buf)@ == old(buf)@ + (if (*old(self)).pos() <= (*old(self)).stream().len() { (*old(self)).stream().skip((*old(self)).pos() as int) } else { Seq::<u8>::empty() })
            },
            (*old(self)).reliable() ==> r is Ok;
    /// any number of the bytes asked for; none only at the end
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>)
        ensures
            (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> {
                let n = r->Ok_0 as int; let p = (*old(self)).pos() as int;
                &&& n <= old(buf)@.len() && (*final(self)).pos() == p + n
                &&& n > 0 ==> p + n <= (*old(self)).stream().len() && final(buf)@.take(n) == (*old(self)).stream().subrange(p, p + n)
                &&& n == 0 ==> old(buf)@.len() == 0 || p >= (*old(self)).stream().len()
                &&& final(buf)@.skip(n) == old(buf)@.skip(n)
            },
            (*old(self)).reliable() ==> r is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    fn take(self, limit: u64) -> (r: Take<Self>) where Self: Sized
        ensures r.stream() == (if self.pos() + limit < self.stream().len() { self.stream().take(self.pos() + limit) } else { self.stream() }),
            r.pos() == self.pos(), r.reliable() == self.reliable(),
    { unimplemented!() }
}
/// a reader that ends early
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Take<R> { r: R }
impl<R: Stream> Stream for Take<R> {
    uninterp spec fn stream(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    uninterp spec fn reliable(&self) -> bool;
}
impl<R: Read> Read for Take<R> {
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { unimplemented!() }
}
pub trait Seek: Stream {
    fn stream_position(&mut self) -> (r: Result<u64, Error>)
        ensures (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(), (*final(self)).pos() == (*old(self)).pos(),
            r is Ok ==> r->Ok_0 == (*old(self)).pos(),
            (*old(self)).reliable() ==> r is Ok;
    fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>)
        ensures (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(),
            r is Ok ==> r->Ok_0 == (*final(self)).pos(),
            r is Ok ==> match p {
                SeekFrom::Start(n) => (*final(self)).pos() == n,
                SeekFrom::End(n) => (*final(self)).pos() == (*old(self)).stream().len() + n,
                SeekFrom::Current(n) => (*final(self)).pos() == (*old(self)).pos() + n,
            },
            (*old(self)).reliable() && p is Start ==> r is Ok,
            (*old(self)).reliable() && p == SeekFrom::End(0) ==> r is Ok,
            (*old(self)).reliable() && p is Current && 0 <= (*old(self)).pos() + p->Current_0 <= (*old(self)).stream().len() ==> r is Ok;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: Stream> Stream for BufReader<R> {
    uninterp spec fn stream(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    uninterp spec fn reliable(&self) -> bool;
}
impl<R: Stream> BufReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.stream() == r.stream(), b.pos() == r.pos(), b.reliable() == r.reliable() { unimplemented!() }
    #[verifier::external_body]
    pub fn seek_relative(&mut self, n: i64) -> (r: Result<(), Error>)
        ensures (*final(self)).stream() == (*old(self)).stream(), (*final(self)).reliable() == (*old(self)).reliable(),
            r is Ok ==> (*final(self)).pos() == (*old(self)).pos() + n,
            (*old(self)).reliable() && (*old(self)).pos() + n >= 0 ==> r is Ok { unimplemented!() }
}
impl<R: Read> Read for BufReader<R> {
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { unimplemented!() }
}
impl<R: Seek> Seek for BufReader<R> {
    #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64, Error>) { unimplemented!() }
    #[verifier::external_body] fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>) { unimplemented!() }
}
impl<R: Stream> Stream for &mut R {
    open spec fn stream(&self) -> Seq<u8> { (**self).stream() }
    open spec fn pos(&self) -> nat { (**self).pos() }
    open spec fn reliable(&self) -> bool { (**self).reliable() }
}
impl<R: Read> Read for &mut R {
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { (**self).read_exact(buf) }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { (**self).read_to_end(buf) }
}
impl<R: Seek> Seek for &mut R {
    fn stream_position(&mut self) -> (r: Result<u64, Error>) { (**self).stream_position() }
    fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, Error>) { (**self).seek(p) }
}

/// a destination: the bytes it has received, and whether it never fails
pub trait Write: Sized {
    spec fn sink(&self) -> Seq<u8>;
    spec fn dependable(&self) -> bool;
    /// which destination this is
    spec fn place(&self) -> int;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> (*final(self)).sink() == (*old(self)).sink() + buf@,
            (*old(self)).dependable() ==> (*final(self)).dependable(), (*final(self)).place() == (*old(self)).place(),
            (*old(self)).dependable() ==> r is Ok;
    /// any number of the bytes given
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, Error>)
        ensures r is Ok ==> r->Ok_0 <= buf@.len() && (*final(self)).sink() == (*old(self)).sink() + buf@.take(r->Ok_0 as int),
            (*old(self)).dependable() ==> (*final(self)).dependable(), (*final(self)).place() == (*old(self)).place(),
            (*old(self)).dependable() ==> r is Ok,
    { unimplemented!() }
    fn flush(&mut self) -> (r: Result<(), Error>)
        ensures r is Ok ==> (*final(self)).sink() == (*old(self)).sink(),
            (*old(self)).dependable() ==> (*final(self)).dependable(), (*final(self)).place() == (*old(self)).place(),
            (*old(self)).dependable() ==> r is Ok;
}
/// buffered writer: bytes accepted but not yet delivered are in `pending`;
/// only a successful flush guarantees delivery
pub struct BufWriter<'a, W> { pub inner: &'a mut W, pub pending: Ghost<Seq<u8>> }
impl<'a, W: Write> BufWriter<'a, W> {
    #[verifier::external_body]
    pub fn new(w: &'a mut W) -> (r: Self)
        ensures *r.inner == *old(w), *final(r.inner) == *final(w), r.pending@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).inner.sink() + final(self).pending@ == old(self).inner.sink() + old(self).pending@ + b@,
            old(self).inner.dependable() ==> final(self).inner.dependable(), final(self).inner.place() == old(self).inner.place(),
            old(self).inner.dependable() ==> r is Ok,
            *final(final(self).inner) == *final(old(self).inner) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: Result<usize, Error>)
        ensures r is Ok ==> r->Ok_0 <= b@.len() && final(self).inner.sink() + final(self).pending@ == old(self).inner.sink() + old(self).pending@ + b@.take(r->Ok_0 as int),
            old(self).inner.dependable() ==> final(self).inner.dependable(), final(self).inner.place() == old(self).inner.place(),
            old(self).inner.dependable() ==> r is Ok,
            *final(final(self).inner) == *final(old(self).inner) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).inner.sink() == old(self).inner.sink() + old(self).pending@ && final(self).pending@ == Seq::<u8>::empty(),
            old(self).inner.dependable() ==> final(self).inner.dependable(), final(self).inner.place() == old(self).inner.place(),
            old(self).inner.dependable() ==> r is Ok,
            *final(final(self).inner) == *final(old(self).inner) { unimplemented!() }
}
} // io
} // vx
} // verus!
