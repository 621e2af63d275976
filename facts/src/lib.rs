//! Facts about std the contracts in ../spec/prelude.rs take as given, decided by Kani for every input.
//! Each proof repeats the text of the assumed contract it stands for.  Run by ../run/facts.py.
#![cfg(kani)]

fn le64(x: u64) -> [u8; 8] {
    [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8]
}
fn un64(s: [u8; 8]) -> u64 {
    (s[0] as u64) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24) | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56)
}
fn pop(x: u64, k: u32) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < k {
        n += (x >> i & 1) as u32;
        i += 1;
    }
    n
}

#[kani::proof]
fn u64_count_ones() {
    let x: u64 = kani::any();
    assert!(x.count_ones() == pop(x, 64) && x.count_ones() <= 64);
}
#[kani::proof]
fn u64_count_zeros() {
    let x: u64 = kani::any();
    assert!(x.count_zeros() == 64 - pop(x, 64) && x.count_zeros() <= 64);
}
#[kani::proof]
fn u8_count_ones() {
    let x: u8 = kani::any();
    assert!(x.count_ones() == pop(x as u64, 8) && x.count_ones() <= 8);
}
#[kani::proof]
fn u8_count_zeros() {
    let x: u8 = kani::any();
    assert!(x.count_zeros() == 8 - pop(x as u64, 8) && x.count_zeros() <= 8);
}
#[kani::proof]
fn u64_is_power_of_two() {
    let x: u64 = kani::any();
    assert!(x.is_power_of_two() == (x != 0 && x & (x - 1) == 0));
}
#[kani::proof]
fn usize_is_power_of_two() {
    let x: usize = kani::any();
    assert!(x.is_power_of_two() == (x != 0 && x & (x - 1) == 0));
}
#[kani::proof]
fn u64_next_power_of_two() {
    let x: u64 = kani::any();
    kani::assume(x <= 1 << 63);
    let r = x.next_power_of_two();
    assert!(r >= x && r >= 1 && r & (r - 1) == 0 && (x < 2 || r / 2 < x) && (x >= 2 || r == 1));
}
#[kani::proof]
fn vx_u64_to_le() {
    let x: u64 = kani::any();
    assert!(x.to_le_bytes() == le64(x));
}
#[kani::proof]
fn vx_u64_to_be() {
    let x: u64 = kani::any();
    let mut e = le64(x);
    e.reverse();
    assert!(x.to_be_bytes() == e);
}
#[kani::proof]
fn vx_u64_from_le() {
    let b: [u8; 8] = kani::any();
    assert!(u64::from_le_bytes(b) == un64(b));
}
#[kani::proof]
fn vx_f64_to_le() {
    let x = f64::from_bits(kani::any());
    assert!(x.to_le_bytes() == le64(x.to_bits()));
}
#[kani::proof]
fn vx_f64_from_le() {
    let b: [u8; 8] = kani::any();
    assert!(f64::from_le_bytes(b).to_bits() == un64(b));
}
#[kani::proof]
fn vx_u16_to_le() {
    let x: u16 = kani::any();
    assert!(x.to_le_bytes() == [x as u8, (x >> 8) as u8]);
}
#[kani::proof]
fn vx_u32_to_le() {
    let x: u32 = kani::any();
    assert!(x.to_le_bytes() == [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8]);
}
#[kani::proof]
fn vx_u128_to_le() {
    let x: u128 = kani::any();
    let i: usize = kani::any();
    kani::assume(i < 16);
    assert!(x.to_le_bytes()[i] == (x >> (8 * i)) as u8);
}
#[kani::proof]
fn ax_f_of() {
    let n: u64 = kani::any();
    assert!(f64::from_bits(n).to_bits() == n);
}
#[kani::proof]
fn ax_f_bits() {
    let n: u64 = kani::any();
    let x = f64::from_bits(n);
    assert!(f64::from_bits(x.to_bits()).to_bits() == n);
}
#[kani::proof]
fn ax_feq_sym() {
    let (a, b) = (f64::from_bits(kani::any()), f64::from_bits(kani::any()));
    assert!((a == b) == (b == a));
}
#[kani::proof]
fn ax_ceil8() {
    let n: u64 = kani::any();
    let r = (n as f64 / 8.0).ceil() as u64;
    assert!(if n <= 1 << 53 { r == (n + 7) / 8 } else { r >= 1 << 50 });
    assert!(r <= 1 << 61);
}
#[kani::proof]
fn ax_ceil64() {
    let n: u64 = kani::any();
    let r = (n as f64 / 64.0).ceil() as u64;
    assert!(if n <= 1 << 53 { r == (n + 63) / 64 } else { r >= 1 << 47 });
    assert!(r <= 1 << 58);
}
#[kani::proof]
fn ax_ceil_int() {
    let n: u64 = kani::any();
    assert!(n == 0 || (n as f64).ceil() as u64 >= 1);
}
#[kani::proof]
fn ax_max_one() {
    let x = f64::from_bits(kani::any());
    assert!(x.max(1.0) as u64 >= 1);
}
/// first half of ax_ceil_pos: positive, so its ceiling is at least one (a zero divisor gives infinity)
#[kani::proof]
fn ceil_pos_quotient() {
    let (n, d): (u64, u64) = (kani::any(), kani::any());
    assert!(n == 0 || (n as f64 / d as f64).ceil() as u64 >= 1);
}
/// second half with the constant for ln 2, whose value the probes of the companion run compare
#[kani::proof]
fn ceil_pos_product() {
    let (n, d): (u64, u64) = (kani::any(), kani::any());
    assert!(n == 0 || (std::f64::consts::LN_2 * n as f64 / d as f64).ceil() as u64 >= 1);
}
