//! Bit sets against vectors of booleans, and size values
use poppy_filters::bitset::{array::BitSet, vec::VecBitSet};
use poppy_filters::utils::ByteSize;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub enum R {
    V(VecBitSet),
    A1(BitSet<1>),
    A3(BitSet<3>),
    A8(BitSet<8>),
    A33(BitSet<33>),
    A4096(Box<BitSet<4096>>),
}
macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            R::V($b) => $e,
            R::A1($b) => $e,
            R::A3($b) => $e,
            R::A8($b) => $e,
            R::A33($b) => $e,
            R::A4096($b) => $e,
        }
    };
}
macro_rules! pair {
    ($s:expr, $o:expr, $b:ident, $c:ident => $e:expr) => {
        match ($s, $o) {
            (R::V($b), R::V($c)) => Some($e),
            (R::A1($b), R::A1($c)) => Some($e),
            (R::A3($b), R::A3($c)) => Some($e),
            (R::A8($b), R::A8($c)) => Some($e),
            (R::A33($b), R::A33($c)) => Some($e),
            (R::A4096($b), R::A4096($c)) => Some($e),
            _ => None,
        }
    };
}
#[derive(Clone)]
pub struct Bs {
    r: R,
    m: Vec<bool>,
}
type Mm = Vec<(String, String)>;

fn check(b: &Bs, what: &str, mm: &mut Mm) {
    let len = each!(&b.r, r => r.bit_len());
    let by = each!(&b.r, r => r.byte_len());
    let sl = each!(&b.r, r => r.as_slice().to_vec());
    let mut f = |c: bool, d: String| {
        if !c {
            mm.push((format!("bs.{}", what), d))
        }
    };
    f(len == b.m.len(), format!("bit length {} expected {}", len, b.m.len()));
    f(by * 8 == b.m.len() && sl.len() == by, format!("byte length {} with {} bits", by, b.m.len()));
    if let R::V(v) = &b.r {
        f(v.is_empty() == b.m.is_empty(), "is_empty is wrong".into());
    }
    if sl.len() * 8 == b.m.len() {
        for i in 0..b.m.len() {
            let g = each!(&b.r, r => r.get_nth_bit(i));
            if g != b.m[i] {
                f(false, format!("bit {} reads {}, expected {}", i, g, b.m[i]));
                break;
            }
            let g = sl[i / 8] >> (i % 8) & 1 == 1;
            if g != b.m[i] {
                f(false, format!("bit {} is not stored least significant first", i));
                break;
            }
        }
    }
    let ones = b.m.iter().filter(|x| **x).count();
    let (o, z) = each!(&b.r, r => (r.count_ones(), r.count_zeros()));
    f(o == ones, format!("count_ones {} expected {}", o, ones));
    f(z == b.m.len() - ones, format!("count_zeros {} expected {}", z, b.m.len() - ones));
}

pub fn step(st: &mut Vec<Option<Bs>>, a: &[&str], mm: &mut Mm) {
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    while st.len() < 4 {
        st.push(None)
    }
    match a[0] {
        // bsnew I v BITS | aN
        "bsnew" => {
            let r = match a[2] {
                "v" => R::V(VecBitSet::with_bit_capacity(n(3))),
                "a1" => R::A1(BitSet::new()),
                "a3" => R::A3(BitSet::new()),
                "a8" => R::A8(BitSet::new()),
                "a33" => R::A33(BitSet::new()),
                _ => R::A4096(Box::new(BitSet::new())),
            };
            let len = match a[2] {
                "v" => (n(3) + 7) / 8 * 8,
                "a1" => 8,
                "a3" => 24,
                "a8" => 64,
                "a33" => 33 * 8,
                _ => 32768,
            };
            match a[2] {
                "a1" if BitSet::<1>::bit_size() != 8 || BitSet::<1>::byte_size() != 1 => mm.push(("bs.new".into(), "bit_size/byte_size".into())),
                "a33" if BitSet::<33>::bit_size() != 264 || BitSet::<33>::byte_size() != 33 => mm.push(("bs.new".into(), "bit_size/byte_size".into())),
                _ => {}
            }
            let b = Bs { r, m: vec![false; len] };
            check(&b, "new", mm);
            st[n(1)] = Some(b);
        }
        // bsset I INDEX, bsclr, bsget
        "bsset" | "bsunset" | "bsget" => {
            let Some(b) = st[n(1)].as_mut() else { return };
            let i = n(2);
            let before = each!(&b.r, r => r.as_slice().to_vec());
            let op = a[0];
            let r = catch_unwind(AssertUnwindSafe(|| match op {
                "bsset" => each!(&mut b.r, r => r.set_nth_bit(i)),
                "bsunset" => each!(&mut b.r, r => r.unset_nth_bit(i)),
                _ => each!(&b.r, r => r.get_nth_bit(i)),
            }));
            let w = &op[2..];
            if i < b.m.len() {
                match r {
                    Ok(o) => {
                        if o != b.m[i] {
                            mm.push((format!("bs.{}", w), format!("{} of bit {} returned {}, expected {}", w, i, o, b.m[i])))
                        }
                    }
                    Err(_) => mm.push((format!("bs.{}", w), format!("panic on bit {} of {}", i, b.m.len()))),
                }
                match op {
                    "bsset" => b.m[i] = true,
                    "bsunset" => b.m[i] = false,
                    _ => {}
                }
            } else {
                if r.is_ok() {
                    mm.push((format!("bs.{}", w), format!("no panic on bit {} of {}", i, b.m.len())))
                }
                if each!(&b.r, r => r.as_slice().to_vec()) != before {
                    mm.push((format!("bs.{}", w), format!("out of range access to bit {} wrote", i)))
                }
            }
            check(b, w, mm);
        }
        "bsclear" => {
            let Some(b) = st[n(1)].as_mut() else { return };
            each!(&mut b.r, r => r.clear());
            b.m.iter_mut().for_each(|x| *x = false);
            check(b, "clear", mm);
        }
        // bsuni I J, bsint I J, bscmn I J
        "bsuni" | "bsint" | "bscmn" => {
            let (Some(mut b), Some(o)) = (st[n(1)].clone(), st[n(2)].clone()) else { return };
            let op = a[0];
            let w = &op[2..];
            let before = each!(&b.r, r => r.as_slice().to_vec());
            let mut common = 0usize;
            let r = catch_unwind(AssertUnwindSafe(|| match op {
                "bsuni" => pair!(&mut b.r, &o.r, x, y => x.union(y)),
                "bsint" => pair!(&mut b.r, &o.r, x, y => x.intersection(y)),
                _ => pair!(&b.r, &o.r, x, y => common = x.count_ones_in_common(y)),
            }));
            if let Ok(None) = r {
                return;
            }
            if b.m.len() == o.m.len() {
                if r.is_err() {
                    mm.push((format!("bs.{}", w), "panic on operands of the same length".into()))
                }
                match op {
                    "bsuni" => (0..b.m.len()).for_each(|i| b.m[i] |= o.m[i]),
                    "bsint" => (0..b.m.len()).for_each(|i| b.m[i] &= o.m[i]),
                    _ => {
                        let c = (0..b.m.len()).filter(|i| b.m[*i] && o.m[*i]).count();
                        if c != common {
                            mm.push(("bs.cmn".into(), format!("{} ones in common, expected {}", common, c)))
                        }
                    }
                }
            } else {
                if r.is_ok() {
                    mm.push((format!("bs.{}", w), "operands of different length accepted".into()))
                }
                if each!(&b.r, r => r.as_slice().to_vec()) != before {
                    mm.push((format!("bs.{}", w), "operands of different length were written".into()))
                }
            }
            check(&b, w, mm);
            check(&o, w, mm);
            st[n(1)] = Some(b);
        }
        // bsraw I BYTES
        "bsraw" => {
            let Some(b) = st[n(1)].as_mut() else { return };
            let d = crate::engine::dec(a[2]);
            let s = each!(&mut b.r, r => r.as_mut_slice());
            let k = s.len().min(d.len());
            s[..k].copy_from_slice(&d[..k]);
            for i in 0..k * 8 {
                b.m[i] = d[i / 8] >> (i % 8) & 1 == 1
            }
            check(b, "raw", mm);
        }
        _ => panic!("unknown operation {}", a[0]),
    }
}

fn h(b: &ByteSize) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut s = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut s);
    s.finish()
}

/// size bytes|bits|mb N M
pub fn bytesize(a: &[&str], mm: &mut Mm) {
    let mk = |k: &str, v: usize| match k {
        "bytes" => (ByteSize::from_bytes(v), v),
        "bits" => (ByteSize::from_bits(v), v / 8),
        _ => (ByteSize::from_mb(v), (v as u128 * 1048576).min(usize::MAX as u128) as usize),
    };
    let v: usize = a[2].parse().unwrap();
    let w: usize = a[3].parse().unwrap();
    let (s, n) = mk(a[1], v);
    let (o, m) = mk("bytes", w);
    let mut f = |c: bool, d: String| {
        if !c {
            mm.push(("size.value".into(), d))
        }
    };
    f(s.in_bytes() == n, format!("from_{}({}) holds {} bytes, expected {}", a[1], v, s.in_bytes(), n));
    let (u, d) = if n < 1024 {
        ("B", 1.0)
    } else if n < 1 << 20 {
        ("KB", 1024.0)
    } else if n < 1 << 30 {
        ("MB", 1048576.0)
    } else {
        ("GB", 1073741824.0)
    };
    let want = format!("{:.1}{}", n as f64 / d, u);
    f(s.to_string() == want, format!("from_{}({}) prints {}, expected {}", a[1], v, s, want));
    f(s.in_unit() == n as f64 / d, format!("in_unit of {} is {}", n, s.in_unit()));
    f(s.in_mb() == n as f64 / 1048576.0, format!("in_mb of {} is {}", n, s.in_mb()));
    let var = match (&s, u) {
        (ByteSize::Bytes(_), "B") | (ByteSize::Kilo(_), "KB") | (ByteSize::Mega(_), "MB") | (ByteSize::Giga(_), "GB") => true,
        _ => false,
    };
    f(var, format!("{} bytes use the wrong unit", n));
    for (x, y, xn, yn) in [(&s, &o, n, m), (&o, &s, m, n)] {
        f((x == y) == (xn == yn), format!("equality of {} and {} is wrong", xn, yn));
        f(x.partial_cmp(y) == Some(xn.cmp(&yn)), format!("ordering of {} and {} is wrong", xn, yn));
        f(xn != yn || h(x) == h(y), format!("equal sizes {} hash differently", xn));
    }
    let b = ByteSize::from_bytes(n).as_bytes();
    f(b == s && s == b && h(&b) == h(&s), format!("{} bytes are not equal in another unit", n));
    f(matches!(b, ByteSize::Bytes(x) if x == n), format!("as_bytes of {}", n));
}
