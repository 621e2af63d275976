@# Hashing: C08 (FNV-1, v1 index sequence), C09 (wyhash based derivation), C13 (key forms)

@sizeof u64 8

@mod crate
/// FNV-1 (64 bit): multiply by the prime, then xor the byte
pub open spec fn fnv(s: u64, b: Seq<u8>) -> u64 decreases b.len() {
    if b.len() == 0 { s } else { fnv(s, b.drop_last()).wrapping_mul(1099511628211) ^ (b.last() as u64) }
}
pub proof fn lemma_fnv_push(s: u64, b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures fnv(s, b.take(i + 1)) == fnv(s, b.take(i)).wrapping_mul(1099511628211) ^ (b[i] as u64)
{
    assert(b.take(i + 1).drop_last() =~= b.take(i));
}
pub proof fn lemma_fnv_cat(s: u64, a: Seq<u8>, b: Seq<u8>)
    ensures fnv(fnv(s, a), b) == fnv(s, a + b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_fnv_cat(s, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
/// zero padding to 8 bytes
pub open spec fn pad8(s: Seq<u8>) -> Seq<u8> { Seq::new(8, |i: int| if i < s.len() { s[i] } else { 0u8 }) }
/// hash of a byte string: long strings are hashed, short ones are their own value
pub open spec fn key_hash<H: hash::PoppyHasher>(s: Seq<u8>) -> u64 {
    if s.len() > 8 { hash_bytes::<H>(s) } else { un64(pad8(s)) }
}
pub open spec fn hash_bytes<H: Hasher + Default>(s: Seq<u8>) -> u64 { H::default_spec().write_spec(s).finish_spec() }

@traititem hash::PoppyHash
spec fn pop_spec<H: PoppyHasher>(&self) -> u64;

@fn hash::PoppyHash::hash_pop
ret r
ensures r == self.pop_spec::<H>()

@fn hash::PoppyHasher::hash_one
ret r
ensures r == crate::hash_bytes::<Self>(s.as_ref_spec()@)

@fn hash::digest
ret r
ensures r == crate::hash_bytes::<H>(s.as_ref_spec()@)

@implitem hash::<&[u8] as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { crate::key_hash::<H>((*self)@) }

@implitem hash::<Vec<u8> as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { crate::key_hash::<H>(self@) }

@implitem hash::<&str as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { crate::key_hash::<H>(str_bytes(*self)) }

@implitem hash::<String as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { crate::key_hash::<H>(string_bytes(self)) }

@implitem hash::<Option<T> as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<u8 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<u16 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<u32 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<u64 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<u128 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<usize as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<i8 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<i16 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<i32 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<i64 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<i128 as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@implitem hash::<isize as PoppyHash>
open spec fn pop_spec<H: PoppyHasher>(&self) -> u64 { self.hash_spec::<H>(H::default_spec()).finish_spec() }

@fn hash::<&[u8] as PoppyHash>::hash_pop
@loop 0
invariant forall|k: int| 0 <= k < $i ==> tmp@[k] == self@[k], forall|k: int| $i <= k < 8 ==> tmp@[k] == 0u8
@loopafter 0
assert(tmp@ =~= crate::pad8(self@));

@fn hash::<Vec<u8> as PoppyHash>::hash_pop

@fn hash::<&str as PoppyHash>::hash_pop

@fn hash::<String as PoppyHash>::hash_pop

@implitem hash::fnv::<Fnv1Hasher as Default>
open spec fn default_spec() -> Self { Fnv1Hasher { sum: 14695981039346656037 } }

@fn hash::fnv::<Fnv1Hasher as Default>::default

@implitem hash::fnv::<Fnv1Hasher as Hasher>
open spec fn write_spec(&self, b: Seq<u8>) -> Self { Fnv1Hasher { sum: crate::fnv(self.sum, b) } }
open spec fn finish_spec(&self) -> u64 { self.sum }

@fn hash::fnv::<Fnv1Hasher as Hasher>::finish

@fn hash::fnv::<Fnv1Hasher as Hasher>::write
@entry
hide(vstd::wrapping::u64_specs::wrapping_mul);
@loop 0
invariant $it.data() == bytes@, $it.size() == 8, $it.pos() % 8 == 0, $it.pos() <= bytes@.len(),
    self.sum == crate::fnv(old(self).sum, bytes@.take($it.pos() as int)),
decreases bytes@.len() - $it.pos()
@loopstart 0
let ghost vx_p = $it.pos() as int; let ghost vx_s = self.sum;
@loopend 0
proof {
    crate::lemma_fnv_cat(old(self).sum, bytes@.take(vx_p), u@.take(8));
    assert(u@.take(8) =~= bytes@.subrange(vx_p, vx_p + 8));
    assert(bytes@.take(vx_p) + bytes@.subrange(vx_p, vx_p + 8) =~= bytes@.take(vx_p + 8));
}
@loopafter 0
assert(bytes@.take(bytes@.len() as int) =~= bytes@);
@loop 1
invariant self.sum == crate::fnv(vx_s, u@.take($i as int))
@loopstart 1
proof { crate::lemma_fnv_push(vx_s, u@, $j as int); }
@loop 2
invariant self.sum == crate::fnv(crate::fnv(old(self).sum, bytes@.take(bytes@.len() - bytes@.len() % 8)), r@.take($i as int))
@loopbefore 2
assert(rem@.take(r@.len() as int) =~= r@);
@loopstart 2
proof { crate::lemma_fnv_push(crate::fnv(old(self).sum, bytes@.take(bytes@.len() - bytes@.len() % 8)), r@, $j as int); }
@loopafter 2
proof {
    crate::lemma_fnv_cat(old(self).sum, bytes@.take(bytes@.len() - bytes@.len() % 8), r@);
    assert(r@.take(r@.len() as int) =~= r@);
    assert(bytes@.take(bytes@.len() - bytes@.len() % 8) + r@ =~= bytes@);
}

@implitem hash::wyhash::<WyHasher as Default>
open spec fn default_spec() -> Self { WyHasher { h: wy_seed(0x706f707079533d42) } }

@fn hash::wyhash::<WyHasher as Default>::default

@implitem hash::wyhash::<WyHasher as Hasher>
open spec fn write_spec(&self, b: Seq<u8>) -> Self { WyHasher { h: wy_write(self.h, b) } }
open spec fn finish_spec(&self) -> u64 { wy_finish(self.h) }

@fn hash::wyhash::<WyHasher as Hasher>::finish

@fn hash::wyhash::<WyHasher as Hasher>::write
