@# Shared pieces: flags, optimisation levels, little-endian readers, sizing formulas, ByteSize

@mod crate
pub open spec fn two() -> f64 { f_of(0x4000000000000000u64) }
pub open spec fn one() -> f64 { f_of(0x3ff0000000000000u64) }
pub open spec fn fpp_ok(x: f64) -> bool { s_in_range(f_of(0x0010000000000000u64), one(), x) }
/// word i (8 bytes, little endian) of s
pub open spec fn word(s: Seq<u8>, i: int) -> u64 { un64(s.subrange(8 * i, 8 * i + 8)) }

@mod bloom
pub open spec fn opt_byte(o: OptLevel) -> u8 { match o { OptLevel::None => 0, OptLevel::Space => 1, OptLevel::Speed => 2, OptLevel::Best => 3 } }
impl Flags {
    pub open spec fn bytes(&self) -> Seq<u8> {
        seq![self.version, opt_byte(self.opt), self.reserved@[0], self.reserved@[1], self.reserved@[2], self.reserved@[3], self.reserved@[4], self.reserved@[5]]
    }
}
pub proof fn lemma_flags_inj(a: Flags, b: Flags)
    requires a.bytes() == b.bytes()
    ensures a == b
{
    let x = a.bytes(); let y = b.bytes();
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6] && x[7] == y[7]);
    assert(a.reserved@ =~= b.reserved@);
    assert(a.reserved =~= b.reserved);
}

@implitem bloom::<OptLevel as TryFrom>
open spec fn try_from_pre(t: u8) -> bool { true }
open spec fn try_from_ok(t: u8, r: Result<Self, OptLevelError>) -> bool { if t <= 3 { r is Ok && opt_byte(r->Ok_0) == t } else { r == Err::<Self, OptLevelError>(OptLevelError::Invalid(t)) } }

@fn bloom::<OptLevel as TryFrom>::try_from

@fn bloom::Flags::new
ret r
ensures r.bytes() == seq![version, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8], r.version == version

@fn bloom::Flags::opt
ret r
ensures r == (Flags { opt: o, ..self })

@fn bloom::Flags::to_bytes
ret r
ensures r@ == self.bytes()
@entry
assert(forall|x: [u8; 8]| (#[trigger] x@).len() == 8);

@fn bloom::Flags::from_bytes
ret r
ensures
    bytes@[1] <= 3 ==> r is Ok && (r->Ok_0).bytes() == bytes@ && (r->Ok_0).version == bytes@[0],
    bytes@[1] > 3 ==> r is Err

@fn bloom::read_flags
ret res
ensures
    (*final(r)).stream() == (*old(r)).stream(), (*final(r)).reliable() == (*old(r)).reliable(),
    res is Ok ==> (*old(r)).pos() + 8 <= (*old(r)).stream().len() && (*final(r)).pos() == (*old(r)).pos() + 8
        && (res->Ok_0).bytes() == (*old(r)).stream().subrange((*old(r)).pos() as int, ((*old(r)).pos() + 8) as int)
        && (res->Ok_0).version == (*old(r)).stream()[(*old(r)).pos() as int],
    (*old(r)).reliable() && (*old(r)).pos() + 8 <= (*old(r)).stream().len() && (*old(r)).stream()[((*old(r)).pos() + 1) as int] <= 3 ==> res is Ok

@fn utils::read_le_u64
ret res
ensures
    (*final(r)).stream() == (*old(r)).stream(), (*final(r)).reliable() == (*old(r)).reliable(),
    res is Ok ==> (*old(r)).pos() + 8 <= (*old(r)).stream().len() && (*final(r)).pos() == (*old(r)).pos() + 8
        && res->Ok_0 == un64((*old(r)).stream().subrange((*old(r)).pos() as int, ((*old(r)).pos() + 8) as int)),
    (*old(r)).reliable() && (*old(r)).pos() + 8 <= (*old(r)).stream().len() ==> res is Ok

@fn utils::read_le_f64
ret res
ensures
    (*final(r)).stream() == (*old(r)).stream(), (*final(r)).reliable() == (*old(r)).reliable(),
    res is Ok ==> (*old(r)).pos() + 8 <= (*old(r)).stream().len() && (*final(r)).pos() == (*old(r)).pos() + 8
        && res->Ok_0 == f_of(un64((*old(r)).stream().subrange((*old(r)).pos() as int, ((*old(r)).pos() + 8) as int))),
    (*old(r)).reliable() && (*old(r)).pos() + 8 <= (*old(r)).stream().len() ==> res is Ok

@fn utils::check_remaining
ret res
ensures
    (*final(r)).stream() == (*old(r)).stream(), (*final(r)).reliable() == (*old(r)).reliable(),
    res is Ok ==> (*final(r)).pos() == (*old(r)).pos() && (size == 0 || (*old(r)).pos() + size <= (*old(r)).stream().len()),
    (*old(r)).reliable() && (*old(r)).pos() + size <= (*old(r)).stream().len() ==> res is Ok
@entry
proof { crate::vx::io::ax_stream_len(&*r); }

@mod bloom::utils
pub open spec fn ln2() -> f64 { s_fln(crate::two()) }
pub open spec fn k_spec(bit_size: u64, cap: u64) -> u64 { s_f2u(s_fceil(s_fdiv(s_fmul(ln2(), s_u2f(bit_size)), s_u2f(cap)))) }
pub open spec fn bit_size_spec(cap: u64, p: f64) -> u64 { s_f2u(s_fabs(s_fceil(s_fdiv(s_fmul(s_u2f(cap), s_fln(p)), s_fpowf(ln2(), crate::two()))))) }
pub open spec fn estimate_p_spec(n: u64, bs: u64) -> f64 {
    let k = s_u2f(k_spec(bs, n));
    s_fpowf(s_fsub(crate::one(), s_fexp(s_fdiv(s_fmul(s_fneg(k), s_u2f(n)), s_u2f(bs)))), k)
}
pub open spec fn cap_spec(bs: u64, p: f64) -> u64 { s_f2u(s_fabs(s_fdiv(s_fmul(s_u2f(bs), s_fpowf(ln2(), crate::two())), s_fln(p)))) }

@fn bloom::utils::k
ret r
ensures /*formula*/ r == k_spec(bit_size, cap)

@fn bloom::utils::bit_size
ret r
ensures /*formula*/ r == bit_size_spec(cap, proba)

@fn bloom::utils::estimate_p
ret r
ensures /*formula*/ r == estimate_p_spec(n, bit_size)

@fn bloom::utils::cap_from_bit_size
ret r
ensures /*formula*/ r == cap_spec(bit_size, proba)

@# ---------------------------------------------------------------- ByteSize (C22)
@mod utils
impl ByteSize {
    pub open spec fn v(&self) -> usize { match *self { ByteSize::Bytes(b) => b, ByteSize::Kilo(b) => b, ByteSize::Mega(b) => b, ByteSize::Giga(b) => b } }
    pub open spec fn unit(&self) -> &'static str { match *self { ByteSize::Bytes(_) => "B", ByteSize::Kilo(_) => "KB", ByteSize::Mega(_) => "MB", ByteSize::Giga(_) => "GB" } }
    pub open spec fn amount(&self) -> f64 {
        let b = s_u2f(self.v() as u64);
        match *self { ByteSize::Bytes(_) => b, ByteSize::Kilo(_) => s_fdiv(b, s_u2f(1024)), ByteSize::Mega(_) => s_fdiv(b, s_u2f(1048576)), ByteSize::Giga(_) => s_fdiv(b, s_u2f(1073741824)) }
    }
    pub open spec fn unit_ok(&self) -> bool {
        match *self {
            ByteSize::Bytes(b) => b < 1024,
            ByteSize::Kilo(b) => 1024 <= b < 1048576,
            ByteSize::Mega(b) => 1048576 <= b < 1073741824,
            ByteSize::Giga(b) => 1073741824 <= b,
        }
    }
}

@fn utils::ByteSize::from_bytes
ret r
ensures r.v() == b, r.unit_ok()
@entry
assert(1usize << 10 == 1024 && 1usize << 20 == 1048576 && 1usize << 30 == 1073741824) by (bit_vector);

@fn utils::ByteSize::from_bits
ret r
ensures r.v() == b / 8, r.unit_ok()
@entry
proof { crate::vx::l_shr3(b); }

@fn utils::ByteSize::from_mb
ret r
ensures r.unit_ok(), r.v() == (if mb * 1048576 > usize::MAX { usize::MAX as int } else { mb * 1048576 })
@entry
assert(1usize << 10 == 1024 && 1usize << 20 == 1048576 && 1usize << 30 == 1073741824) by (bit_vector);

@fn utils::ByteSize::in_bytes
ret r
ensures r == self.v()

@fn utils::ByteSize::as_bytes
ret r
ensures r == ByteSize::Bytes(self.v())

@fn utils::<ByteSize as PartialEq>::eq
ret r
ensures r == (self.v() == other.v())


@fn utils::<ByteSize as PartialOrd>::partial_cmp
ret r
ensures r == Some(if self.v() < other.v() { core::cmp::Ordering::Less } else if self.v() == other.v() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })

@fn utils::ByteSize::unit_str
ret r
ensures r@ == self.unit()@

@fn utils::ByteSize::in_mb
ret r
ensures /*formula*/ r == s_fdiv(s_u2f(self.v() as u64), s_u2f(1048576))
@entry
assert(1usize << 10 == 1024 && 1usize << 20 == 1048576 && 1usize << 30 == 1073741824) by (bit_vector);

@fn utils::ByteSize::in_unit
ret r
ensures /*formula*/ r == self.amount()
@entry
assert(1usize << 10 == 1024 && 1usize << 20 == 1048576 && 1usize << 30 == 1073741824) by (bit_vector);

@fn bloom::OptLevel::as_str
ret r
ensures self is None ==> r@ == "none"@, self is Space ==> r@ == "space"@, self is Speed ==> r@ == "speed"@, self is Best ==> r@ == "best"@

@# what is printed
@implitem utils::<ByteSize as Display>
open spec fn shows(&self) -> Seq<u8> { fixed(&self.amount(), 1) + str_bytes(self.unit()) }

@fn utils::<ByteSize as Display>::fmt
@entry
broadcast use crate::vx::shows;

@implitem utils::<ByteSize as Hash>
open spec fn hash_spec<H: Hasher>(&self, h: H) -> H { h.write_spec(le64(self.v() as u64)) }

@fn utils::<ByteSize as Hash>::hash

@implitem bloom::<OptLevel as Display>
open spec fn shows(&self) -> Seq<u8> { str_bytes(match *self { OptLevel::None => "none", OptLevel::Space => "space", OptLevel::Speed => "speed", OptLevel::Best => "best" }) }

@fn bloom::<OptLevel as Display>::fmt
@entry
broadcast use crate::vx::shows;
