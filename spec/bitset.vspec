@# Bit sets (array and vector based): C14, basis of C01-C06

@mod bitset::array
broadcast use crate::vx::bits;
impl<const N: usize> BitSet<N> {
    pub open spec fn b(&self) -> Seq<u8> { self.0@ }
}

@fn bitset::array::BitSet::new
ret r
ensures r.b() == zeros8(N as nat)
@entry
assert(([0u8; N])@ =~= zeros8(N as nat));

@fn bitset::array::BitSet::set_value_nth_bit
ret r
requires index < 8 * N
ensures
    r == bit(old(self).b(), index as int),
    forall|j: int| 0 <= j < 8 * N ==> #[trigger] bit(final(self).b(), j) == (if j == index { value } else { bit(old(self).b(), j) }),
    forall|j: int| 0 <= j < N && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::array::BitSet::set_nth_bit
ret r
requires index < 8 * N
ensures
    r == bit(old(self).b(), index as int),
    forall|j: int| 0 <= j < 8 * N ==> #[trigger] bit(final(self).b(), j) == (j == index || bit(old(self).b(), j)),
    forall|j: int| 0 <= j < N && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::array::BitSet::unset_nth_bit
ret r
requires index < 8 * N
ensures
    r == bit(old(self).b(), index as int),
    forall|j: int| 0 <= j < 8 * N ==> #[trigger] bit(final(self).b(), j) == (j != index && bit(old(self).b(), j)),
    forall|j: int| 0 <= j < N && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::array::BitSet::get_nth_bit
ret r
requires index < 8 * N
ensures r == bit(self.b(), index as int)

@fn bitset::array::BitSet::as_slice
ret r
ensures r@ == self.b()

@fn bitset::array::BitSet::as_mut_slice
ret r
ensures r@ == old(self).b(), final(self).b() == final(r)@

@fn bitset::array::BitSet::clear
ensures final(self).b() == zeros8(N as nat)
@loop 0
invariant forall|k: int| 0 <= k < $i ==> self.0@[k] == 0u8
@loopafter 0
assert(self.0@ =~= zeros8(N as nat));

@fn bitset::array::BitSet::bit_len
ret r
requires N <= 0x4_0000_0000_0000
ensures r == 8 * N

@fn bitset::array::BitSet::byte_len
ret r
ensures r == N

@fn bitset::array::BitSet::byte_size
ret r
ensures r == N

@fn bitset::array::BitSet::bit_size
ret r
requires N <= 0x4_0000_0000_0000
ensures r == 8 * N

@fn bitset::array::BitSet::count_ones
ret r
requires N <= 0x4_0000_0000_0000
ensures r == ones(self.b()), r <= 8 * N
@loop 0
invariant $acc == ones(self.b().take($i as int)), $acc <= 8 * $i
@loopstart 0
broadcast use lemma_ones_push;
assert(ones(self.b().take($j as int + 1)) == ones(self.b().take($j as int)) + pop8(self.b()[$j as int]));
@loopafter 0
assert(self.b().take(N as int) =~= self.b());

@fn bitset::array::BitSet::count_zeros
ret r
requires N <= 0x4_0000_0000_0000
ensures r == 8 * N - ones(self.b())
@loop 0
invariant $acc == 8 * $i - ones(self.b().take($i as int)), $acc <= 8 * $i
@loopstart 0
assert(ones(self.b().take($j as int + 1)) == ones(self.b().take($j as int)) + pop8(self.b()[$j as int])) by { broadcast use lemma_ones_push; }
@loopafter 0
assert(self.b().take(N as int) =~= self.b());

@fn bitset::array::BitSet::union
ensures final(self).b() == or8(old(self).b(), other.b())
@loop 0
invariant forall|k: int| 0 <= k < $i ==> self.0@[k] == old(self).0@[k] | other.0@[k],
    forall|k: int| $i <= k < N ==> self.0@[k] == old(self).0@[k]
@loopafter 0
assert(self.b() =~= or8(old(self).b(), other.b()));

@fn bitset::array::BitSet::intersection
ensures final(self).b() == and8(old(self).b(), other.b())
@loop 0
invariant forall|k: int| 0 <= k < $i ==> self.0@[k] == old(self).0@[k] & other.0@[k],
    forall|k: int| $i <= k < N ==> self.0@[k] == old(self).0@[k]
@loopafter 0
assert(self.b() =~= and8(old(self).b(), other.b()));

@fn bitset::array::BitSet::count_ones_in_common
ret r
requires N <= 0x4_0000_0000_0000
ensures r == ones(and8(self.b(), other.b())), r <= 8 * N
@loop 0
invariant $acc == ones(and8(self.b(), other.b()).take($i as int)), $acc <= 8 * $i
@loopstart 0
if $j < N { assert(ones(and8(self.b(), other.b()).take($j as int + 1)) == ones(and8(self.b(), other.b()).take($j as int)) + pop8(and8(self.b(), other.b())[$j as int])) by { broadcast use lemma_ones_push; } }
@loopafter 0
assert(and8(self.b(), other.b()).take(N as int) =~= and8(self.b(), other.b()));

@mod bitset::vec
broadcast use {crate::vx::bits, crate::vx::floats};
impl VecBitSet {
    pub open spec fn b(&self) -> Seq<u8> { self.0@ }
}

@fn bitset::vec::byte_cap_from_bit_cap
ret r
ensures
    /*formula*/ bit_cap <= 0x20_0000_0000_0000 ==> r == (bit_cap + 7) / 8,
    /*formula*/ bit_cap > 0x20_0000_0000_0000 ==> r >= 0x4_0000_0000_0000,
    /*formula*/ r <= 0x2000_0000_0000_0000

@fn bitset::vec::VecBitSet::with_bit_capacity
ret r
requires capacity <= 0x20_0000_0000_0000
ensures r.b() == zeros8(((capacity + 7) / 8) as nat)
@entry
assert(Seq::new(((capacity + 7) / 8) as nat, |i: int| 0u8) =~= zeros8(((capacity + 7) / 8) as nat));

@fn bitset::vec::VecBitSet::is_empty
ret r
ensures r == (self.b().len() == 0)

@fn bitset::vec::VecBitSet::as_slice
ret r
ensures r@ == self.b()

@fn bitset::vec::VecBitSet::as_mut_slice
ret r
ensures r@ == old(self).b(), final(self).b() == final(r)@

@fn bitset::vec::VecBitSet::set_value_nth_bit
ret r
requires index < 8 * old(self).b().len()
ensures
    r == bit(old(self).b(), index as int),
    final(self).b().len() == old(self).b().len(),
    forall|j: int| 0 <= j < 8 * old(self).b().len() ==> #[trigger] bit(final(self).b(), j) == (if j == index { value } else { bit(old(self).b(), j) }),
    forall|j: int| 0 <= j < old(self).b().len() && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::vec::VecBitSet::set_nth_bit
ret r
requires index < 8 * old(self).b().len()
ensures
    r == bit(old(self).b(), index as int),
    final(self).b().len() == old(self).b().len(),
    forall|j: int| 0 <= j < 8 * old(self).b().len() ==> #[trigger] bit(final(self).b(), j) == (j == index || bit(old(self).b(), j)),
    forall|j: int| 0 <= j < old(self).b().len() && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::vec::VecBitSet::unset_nth_bit
ret r
requires index < 8 * old(self).b().len()
ensures
    r == bit(old(self).b(), index as int),
    final(self).b().len() == old(self).b().len(),
    forall|j: int| 0 <= j < 8 * old(self).b().len() ==> #[trigger] bit(final(self).b(), j) == (j != index && bit(old(self).b(), j)),
    forall|j: int| 0 <= j < old(self).b().len() && j != index / 8 ==> #[trigger] final(self).b()[j] == old(self).b()[j]

@fn bitset::vec::VecBitSet::get_nth_bit
ret r
requires index < 8 * self.b().len()
ensures r == bit(self.b(), index as int)

@fn bitset::vec::VecBitSet::clear
ensures final(self).b() == zeros8(old(self).b().len())
@loop 0
invariant self.0@.len() == old(self).0@.len(), forall|k: int| 0 <= k < $i ==> self.0@[k] == 0u8
@loopafter 0
assert(self.0@ =~= zeros8(old(self).0@.len()));

@fn bitset::vec::VecBitSet::bit_len
ret r
requires self.b().len() <= 0x4_0000_0000_0000
ensures r == 8 * self.b().len()

@fn bitset::vec::VecBitSet::byte_len
ret r
ensures r == self.b().len()

@fn bitset::vec::VecBitSet::union
requires old(self).b().len() == other.b().len()
ensures final(self).b() == or8(old(self).b(), other.b())
@loop 0
invariant self.0@.len() == old(self).0@.len(), forall|k: int| 0 <= k < $i ==> self.0@[k] == old(self).0@[k] | other.0@[k],
    forall|k: int| $i <= k < self.0@.len() ==> self.0@[k] == old(self).0@[k]
@loopafter 0
assert(self.b() =~= or8(old(self).b(), other.b()));

@fn bitset::vec::VecBitSet::intersection
requires old(self).b().len() == other.b().len()
ensures final(self).b() == and8(old(self).b(), other.b())
@loop 0
invariant self.0@.len() == old(self).0@.len(), forall|k: int| 0 <= k < $i ==> self.0@[k] == old(self).0@[k] & other.0@[k],
    forall|k: int| $i <= k < self.0@.len() ==> self.0@[k] == old(self).0@[k]
@loopafter 0
assert(self.b() =~= and8(old(self).b(), other.b()));

@fn bitset::vec::VecBitSet::count_ones_in_common
ret r
requires self.b().len() == other.b().len(), self.b().len() <= 0x4_0000_0000_0000
ensures r == ones(and8(self.b(), other.b())), r <= 8 * self.b().len()
@loop 0
invariant $acc == ones(and8(self.b(), other.b()).take($i as int)), $acc <= 8 * $i
@loopstart 0
assert(ones(and8(self.b(), other.b()).take($j as int + 1)) == ones(and8(self.b(), other.b()).take($j as int)) + pop8(and8(self.b(), other.b())[$j as int])) by { broadcast use lemma_ones_push; }
@loopafter 0
assert(and8(self.b(), other.b()).take(self.b().len() as int) =~= and8(self.b(), other.b()));

@fn bitset::vec::VecBitSet::count_ones
ret r
requires self.b().len() <= 0x4_0000_0000_0000
ensures r == ones(self.b()), r <= 8 * self.b().len()
@loop 0
invariant $acc == ones(self.b().take($i as int)), $acc <= 8 * $i
@loopstart 0
assert(ones(self.b().take($j as int + 1)) == ones(self.b().take($j as int)) + pop8(self.b()[$j as int])) by { broadcast use lemma_ones_push; }
@loopafter 0
assert(self.b().take(self.b().len() as int) =~= self.b());

@fn bitset::vec::VecBitSet::count_zeros
ret r
requires self.b().len() <= 0x4_0000_0000_0000
ensures r == 8 * self.b().len() - ones(self.b())
@loop 0
invariant $acc == 8 * $i - ones(self.b().take($i as int)), $acc <= 8 * $i
@loopstart 0
assert(ones(self.b().take($j as int + 1)) == ones(self.b().take($j as int)) + pop8(self.b()[$j as int])) by { broadcast use lemma_ones_push; }
@loopafter 0
assert(self.b().take(self.b().len() as int) =~= self.b());

@drop utils::benchmark
@drop utils::time_it
@drop utils::time_it_once
