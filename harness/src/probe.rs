//! Concrete probes of the facts on floating point and on std's hashing the proofs take as given
use std::hash::{Hash, Hasher};

/// Records what a value feeds to a hasher, write by write
#[derive(Default)]
struct Rec(Vec<Vec<u8>>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.to_vec())
    }
}
fn fed<T: Hash + ?Sized>(x: &T) -> Vec<Vec<u8>> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}

type Mm = Vec<(String, String)>;

/// float N X : N an integer, X the bits of a double
pub fn step(a: &[&str], mm: &mut Mm) {
    let n: u64 = a[1].parse().unwrap();
    let x = f64::from_bits(u64::from_str_radix(a[2], 16).unwrap());
    let mut f = |c: bool, d: &str| {
        if !c {
            mm.push(("float".into(), format!("assumed fact fails: {} (n={} x={})", d, n, x)))
        }
    };
    if n <= 1 << 53 {
        f((n as f64 / 8.0).ceil() as u64 == n / 8 + (n % 8 != 0) as u64, "ceil(n/8)");
        f((n as f64 / 64.0).ceil() as u64 == n / 64 + (n % 64 != 0) as u64, "ceil(n/64)");
        f((n as f64).ceil() as u64 == n, "ceil of an integer");
        f((n as f64) as u64 == n, "round trip of an integer");
    }
    let (e, w) = ((n as f64 / 8.0).ceil() as u64, (n as f64 / 64.0).ceil() as u64);
    f(e <= 1 << 61 && w <= 1 << 58, "ceil upper bounds");
    f(n <= 1 << 53 || (e >= 1 << 50 && w >= 1 << 47), "ceil lower bounds");
    f(x.max(1.0) as u64 >= 1, "max(1.0) is at least one");
    let d = x.to_bits();
    if n > 0 {
        f((n as f64 / d as f64).ceil() as u64 >= 1, "ceil of a positive quotient");
        f((f64::ln(2.0) * n as f64 / d as f64).ceil() as u64 >= 1, "ceil of a positive product");
        f((n as f64).ceil() as u64 >= 1, "ceil of a positive integer");
    }
    f(f64::from_bits(n).to_bits() == n, "bit pattern round trip");
    let y = f64::from_bits(n);
    f((x == y) == (y == x), "equality is symmetric");
    let b = (n ^ d.rotate_left(7)).to_le_bytes()[..(n % 9) as usize].to_vec();
    let len = (b.len() as u64).to_le_bytes().to_vec();
    f(fed(&b[..]) == vec![len.clone(), b.clone()] && fed(&b) == vec![len, b.clone()], "hash of a slice");
    let t: String = b.iter().map(|c| (b'a' + c % 26) as char).collect();
    let u = vec![t.as_bytes().to_vec(), vec![0xff]];
    f(fed(&t) == u && fed(t.as_str()) == u, "hash of a string");
    f(fed(&Some(n)) == vec![1u64.to_le_bytes().to_vec(), n.to_le_bytes().to_vec()], "hash of Some");
    f(fed(&None::<u64>) == vec![0u64.to_le_bytes().to_vec()], "hash of None");
    macro_rules! int {
        ($($t:ty),*) => { $( f(fed(&(n as $t)) == vec![(n as $t).to_le_bytes().to_vec()], "hash of an integer"); )* }
    }
    int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
}
