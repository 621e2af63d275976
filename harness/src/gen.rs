//! Case generators, one per property
use crate::engine::enc;
use crate::rng::Rng;

/// every so often a case works on large filters, past the usual 8, 16 and 20 bit thresholds
static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn big() -> bool {
    BIG.load(std::sync::atomic::Ordering::Relaxed)
}
const ERRORS: &[&str] = &["other", "eof", "block", "timeout", "pipe", "reset", "data", "denied", "zero"];
const FORMS: &[&str] = &["slice", "vec", "str", "string", "gslice", "gvec", "gstr", "gstring", "iter", "iters"];
const BYTE_FORMS: &[&str] = &["slice", "vec"];

pub fn key(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.range(1, 8),
        5 => 8,
        6 => 9,
        7 => r.range(9, 17),
        8 => r.range(16, 40),
        _ => match r.below(12) {
            0 => r.range(200, 1100),
            1 => *r.pick(&[255, 256, 257, 511, 512, 1023, 1024, 1025, 4096]),
            2 if r.chance(30) => *r.pick(&[65535, 65536, 65537, 70000]),
            _ => r.range(40, 200),
        },
    } as usize;
    if n > 4096 {
        // long keys are mostly constant to keep scripts small
        let mut v = vec![b'q'; n];
        for _ in 0..4 {
            let i = r.below(n as u64) as usize;
            v[i] = b"abcd"[r.below(4) as usize]
        }
        return v;
    }
    if r.chance(60) {
        // text, so that string forms apply; small alphabet so that keys repeat
        (0..n).map(|_| b"abcdefgh\n\0 z"[r.below(12) as usize]).collect()
    } else {
        r.bytes(n)
    }
}
/// keys from a small pool so that they repeat
pub fn pool(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| key(r)).collect()
}
pub fn form(r: &mut Rng) -> &'static str {
    if r.chance(50) {
        "slice"
    } else {
        r.pick(FORMS)
    }
}

pub fn fpp(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 1.0,
        1 => 0.5,
        2 => 0.9,
        3 => 0.1,
        4 => 0.01,
        5 => 0.001,
        6 => 1e-6,
        7 => 1e-30,
        8 => 1e-100,
        9 => (r.range(1, 999) as f64) / 1000.0,
        10 => 0.25,
        _ => 0.05,
    }
}
pub fn cap(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 9),
        3 => r.range(1, 70),
        4 => 64,
        5 => r.range(60, 300),
        6 => r.range(1, 1500),
        _ => 1 << r.below(11),
    }
}
pub fn new_line(r: &mut Rng, slot: usize, kind: &str, ver: u8) -> String {
    let (mut c, mut p, o) = (cap(r), fpp(r), r.below(4));
    if big() {
        c = r.range(150_000, 500_000);
        p = *r.pick(&[1e-4, 1e-6, 1e-9, 0.001]);
        while crate::model::Model::cost(ver, c, p, o as u8) > 3e6 {
            c = c * 9 / 10
        }
    }
    format!("new {} {} {} {} {:x} {}", slot, kind, ver, c, p.to_bits(), o)
}

/// A crafted serialised filter. k: upper bound of hash count, sane: keep it usable
pub fn crafted(r: &mut Rng, ver: u8, sane: bool) -> Vec<u8> {
    crafted_with(r, ver, sane, true)
}
fn fillb(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 | 1 | 2 => {
            // sparse
            let mut v = vec![0u8; n];
            for _ in 0..r.below(6) {
                if n > 0 {
                    let i = r.below(n as u64) as usize;
                    v[i] = r.u64() as u8
                }
            }
            v
        }
        3 => vec![0xff; n],
        7 => {
            // any number of ones
            let mut v = vec![0; n];
            if n > 0 {
                let i = r.below(n as u64) as usize;
                v[..i].fill(0xff);
                v[i] = r.u64() as u8
            }
            v
        }
        6 => {
            // dense
            let mut v = vec![0xff; n];
            for _ in 0..r.below(9) {
                if n > 0 {
                    let i = r.below(n as u64) as usize;
                    v[i] = r.u64() as u8
                }
            }
            v
        }
        4 => {
            let mut v = vec![0xff; n];
            if n > 0 {
                let i = r.below(n as u64) as usize;
                v[i] = r.u64() as u8
            }
            v
        }
        _ => vec![0; n],
    }
}
pub fn crafted_with(r: &mut Rng, ver: u8, sane: bool, data: bool) -> Vec<u8> {
    let mut b = vec![ver, if ver == 2 { r.below(4) as u8 } else if r.chance(80) { 0 } else { r.below(4) as u8 }];
    if r.chance(70) {
        b.extend_from_slice(&[0; 6])
    } else {
        b.extend_from_slice(&r.bytes(6))
    }
    let cap = match r.below(6) {
        0 if !sane => 0,
        1 => r.range(1, 3),
        2 => u64::MAX,
        3 => 1 << 40,
        _ => r.range(1, 40),
    };
    let count = match r.below(7) {
        0 => 0,
        1 => cap.wrapping_sub(1),
        2 => cap,
        3 if !sane => r.u64(),
        4 => cap.saturating_add(1),
        5 => cap / 2,
        _ => 0,
    };
    let k = match r.below(6) {
        0 if !sane => 0,
        1 => 1,
        2 => 2,
        3 if r.chance(20) => r.range(12, 130),
        _ => r.range(1, 12),
    };
    let p = if ver == 1 && !sane {
        match r.below(6) {
            0 => f64::NAN,
            1 => -1.0,
            2 => 0.0,
            _ => fpp(r),
        }
    } else {
        fpp(r)
    };
    let w = |b: &mut Vec<u8>, x: u64| b.extend_from_slice(&x.to_le_bytes());
    w(&mut b, cap);
    w(&mut b, p.to_bits());
    w(&mut b, k);
    if ver == 1 {
        let m = match r.below(6) {
            0 if !sane => 0,
            1 => r.range(1, 64),
            2 => 64 * r.range(1, 6),
            3 => 64 * r.range(1, 6) + 1,
            4 if r.chance(15) => r.range(900, 90000),
            _ if big() => *r.pick(&[64 * 65536, 64 * 65536 + 1, 64 * 65536 - 63, 4_300_000, 5_000_000, 8 * 65536 + 1, 600_000, (1 << 24) + 1, (1 << 24) + 65, 20_000_001]),
            _ => r.range(1, 900),
        };
        w(&mut b, m);
        w(&mut b, count);
        let n = ((m + 63) / 64 * 8) as usize;
        let f = fillb(r, n);
        b.extend_from_slice(&f);
    } else {
        w(&mut b, count);
        let c = match r.below(6) {
            0 | 1 => 0,
            2 => 1 << r.below(10),
            3 => r.range(1, 9),
            4 if r.chance(15) => r.range(500, 70000),
            _ if big() => *r.pick(&[65536, 65537, 1 << 19, 1 << 20, 600_000, 1 << 17]),
            _ => r.range(1, 500),
        };
        w(&mut b, c);
        let n = ((c + 7) / 8) as usize;
        let f = fillb(r, n);
        b.extend_from_slice(&f);
        let nb = match r.below(6) {
            0 if !sane => 0,
            _ if big() => *r.pick(&[255, 256, 257, 300, 512, 513, 600, 700]),
            1 => 2,
            2 => 3,
            3 => match r.below(12) {
                0 => r.range(5, 20),
                1 if r.chance(20) => r.range(20, 140),
                _ => r.range(1, 5),
            },
            _ => 1,
        };
        w(&mut b, nb);
        let f = fillb(r, nb as usize * 4096);
        b.extend_from_slice(&f);
    }
    if data && r.chance(40) {
        let d = attached(r);
        b.extend_from_slice(&d);
    }
    b
}
/// attached data: mostly short, sometimes beyond the usual buffer sizes
pub fn attached(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(20) {
        _ if big() => *r.pick(&[65536, 65537, 200_000, 1 << 20, (1 << 20) + 1, 1_500_000, 2_100_000]),
        0 => *r.pick(&[8191, 8192, 8193, 4096, 16384]),
        1 => r.range(8000, 30000),
        2 if r.chance(30) => *r.pick(&[65535, 65536, 65537, 70000, 131072, 200000]),
        3 if r.chance(3) => *r.pick(&[1 << 20, (1 << 20) + 1, 3_000_000]),
        _ => r.range(1, 30),
    } as usize;
    if n < 100 {
        return r.bytes(n);
    }
    let mut v = vec![0x5a; n];
    for (i, b) in v.iter_mut().enumerate() {
        *b = (i >> 10) as u8
    }
    for _ in 0..6 {
        let i = r.below(n as u64) as usize;
        v[i] = r.u64() as u8
    }
    v[n - 1] = 0xe1;
    v
}
/// same parameters, other content
pub fn sibling(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    if let Ok(m) = crate::model::Model::parse(b, false) {
        let mut m = m;
        m.bits = fillb(r, m.bits.len());
        m.cache = fillb(r, m.cache.len());
        m.count = r.below(20);
        m.data = if r.chance(50) { vec![] } else { r.bytes(5) };
        // one differing parameter from time to time
        if r.chance(30) {
            match r.below(7) {
                0 => m.cap = m.cap.wrapping_add(1),
                1 => m.k += 1,
                2 => m.fpp = (f64::from_bits(m.fpp) / 2.0).to_bits(),
                3 => {
                    let i = r.range(2, 7) as usize;
                    m.flags[i] ^= 1
                }
                4 if m.version() == 1 => {
                    // same number of blocks if possible, other bit count
                    m.m ^= 1;
                    m.bits = fillb(r, ((m.m + 63) / 64 * 8) as usize);
                }
                4 => m.flags[1] = (m.flags[1] + 1) & 3,
                5 if m.version() == 2 => m.cache = fillb(r, m.cache.len() + 1),
                6 if m.version() == 2 => {
                    let n = m.bits.len() + 4096;
                    m.bits = fillb(r, n)
                }
                _ => m.flags[1] = (m.flags[1] + 1) & 3,
            }
        }
        o = m.ser();
    }
    o
}

fn two_filters(r: &mut Rng, ver: u8, wrapped: bool, s: &mut Vec<String>) {
    let k = if wrapped { "w" } else if ver == 1 { "a" } else { "bp" };
    if r.chance(50) {
        let l = new_line(r, 0, k, ver);
        let mut f: Vec<String> = l.split(' ').map(|x| x.to_string()).collect();
        s.push(f.join(" "));
        f[1] = "1".into();
        if r.chance(20) {
            let c: u64 = f[4].parse().unwrap();
            match r.below(3) {
                0 => f[4] = (c + 1).to_string(),
                1 => f[6] = r.below(4).to_string(),
                _ => f[5] = format!("{:x}", fpp(r).to_bits()),
            }
        }
        s.push(f.join(" "));
    } else {
        let b = crafted(r, ver, r.clone().chance(70));
        let lk = if wrapped { "w" } else if ver == 1 { "a" } else { "b" };
        s.push(format!("load 0 {} {}", lk, enc(&b)));
        let o = sibling(r, &b);
        s.push(format!("load 1 {} {}", lk, enc(&o)));
    }
    if wrapped && r.chance(8) {
        let v = 3 - ver;
        let l = new_line(r, 1, "w", v);
        s.push(l);
    }
}

fn any_int(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => r.below(20),
        1 => 1u64 << r.below(64),
        2 => (1u64 << r.below(64)).wrapping_sub(1),
        3 => (1u64 << r.below(64)).wrapping_add(r.below(3)),
        4 => u64::MAX - r.below(20),
        _ => r.u64() >> r.below(64),
    }
}

pub fn floats(r: &mut Rng) -> Vec<String> {
    (0..20).map(|_| format!("float {} {:x}", any_int(r), any_int(r))).collect()
}

pub fn case(prop: &str, r: &mut Rng, i: u64) -> Vec<String> {
    let mut s: Vec<String> = vec![];
    let large = i % 251 == 7;
    BIG.store(large, std::sync::atomic::Ordering::Relaxed);
    let ver = match prop {
        "C05" | "C09" | "C13" => 2,
        "C08" => 1,
        _ => 1 + r.below(2) as u8,
    };
    let wrapped = r.chance(40);
    let wk = if wrapped { "w" } else if ver == 1 { "a" } else { "bp" };
    let lk = if wrapped { "w" } else if ver == 1 { "a" } else { "b" };
    let keys = pool(r, 12);
    match prop {
        "C14" => {
            let top = if large { *r.pick(&[65535u64, 65536, 65537, 65544, 131072, 524288, 524296, 600000]) } else { 300 };
            for j in 0..2 {
                let k = if large { "v" } else { *r.pick(&["v", "v", "v", "v", "a1", "a3", "a8", "a33", "a4096"]) };
                let n = if large { top - r.below(2) * 8 } else if r.chance(3) { r.range(300, 9000) } else { r.range(0, 300) };
                s.push(format!("bsnew {} {} {}", j, k, n));
                if j == 0 && r.chance(75) {
                    s.push(format!("bsnew 1 {} {}", k, n));
                    break;
                }
            }
            for _ in 0..r.range(4, 30) {
                let j = r.below(2);
                let ix = match r.below(10) {
                    0 => any_int(r),
                    1 => r.range(250, 330),
                    2 => *r.pick(&[7, 8, 23, 24, 63, 64, 263, 264, 0, 2047, 2048, 32767, 32768]),
                    3..=6 if large => top - r.below(70),
                    7 if large => r.below(top),
                    8 => r.below(4096),
                    _ => r.below(64),
                };
                s.push(match r.below(12) {
                    0..=2 => format!("bsset {} {}", j, ix),
                    3..=4 => format!("bsunset {} {}", j, ix),
                    5 => format!("bsget {} {}", j, ix),
                    6 => format!("bsuni {} {}", j, 1 - j),
                    7 => format!("bsint {} {}", j, 1 - j),
                    8 => format!("bscmn {} {}", j, 1 - j),
                    9 if r.chance(30) => format!("bsclear {}", j),
                    _ if large => {
                        let f = fillb(r, top as usize / 8);
                        format!("bsraw {} {}", j, enc(&f))
                    }
                    _ => {
                        let n = r.range(1, 20) as usize;
                        format!("bsraw {} {}", j, enc(&r.bytes(n)))
                    }
                });
            }
            if large {
                for o in ["cmn", "uni", "int"] {
                    let f = fillb(r, top as usize / 8);
                    s.push(format!("bsraw 0 {}", enc(&f)));
                    let f = fillb(r, top as usize / 8);
                    s.push(format!("bsraw 1 {}", enc(&f)));
                    s.push(format!("bs{} 0 1", o));
                }
                s.push("bsraw 0 ff*80000".into());
                s.push("bsclear 0".into());
            }
            return s;
        }
        "C22" => {
            for _ in 0..10 {
                let k = *r.pick(&["bytes", "bits", "mb"]);
                let mut b = any_int(r);
                if r.chance(40) {
                    b = *r.pick(&[1023, 1024, 1025, 1048575, 1048576, (1 << 30) - 1, 1 << 30, 1 << 40, 8191, 8192, 8193, 0, 1, 7, 8, u64::MAX, u64::MAX / 1048576, u64::MAX / 1048576 + 1, 1 << 44]);
                }
                let o = if r.chance(30) { b } else { any_int(r) };
                s.push(format!("size {} {} {}", k, b, o));
            }
            if i % 2 == 0 {
                s.push(new_line(r, 0, wk, ver));
                s.push(format!("rel 0 1 {}", "w"));
                let b = crafted(r, ver, false);
                s.push(format!("load 2 {} {}", if r.chance(50) { "p" } else { "w" }, enc(&b)));
            }
            return s;
        }
        "C15" => {
            let k = *r.pick(&["w", "wp", "wv", "wc", "m", "a", "ap", "b", "bp"]);
            let v = if r.chance(8) { r.below(256) as u8 } else { ver };
            let o = r.below(4);
            let mut c = match r.below(5) {
                0 => r.below(2_000_000),
                1 => r.below(200_000),
                2 => (1u64 << r.below(18)).wrapping_sub(r.below(2)),
                3 if r.chance(15) => 1u64 << r.range(30, 62) | r.u64() >> r.range(20, 40),
                _ => cap(r),
            };
            let p = match r.below(14) {
                0 => 0.0,
                1 => -0.0,
                2 => f64::NAN,
                3 => 1.0 + f64::EPSILON,
                4 => f64::MIN_POSITIVE / 2.0,
                5 => f64::MIN_POSITIVE,
                6 => *r.pick(&[-0.1, 2.0, f64::INFINITY, f64::NEG_INFINITY, 1.0 - f64::EPSILON, 5e-324]),
                7 => 10f64.powi(-(r.range(1, 300) as i32)),
                8 => f64::from_bits(0x3ff0000000000000 - r.below(1 << 40)),
                _ if c >= 1 << 30 => *r.pick(&[1.0, 1.0 - f64::EPSILON, 1.0 - 1e-13, 0.9999999]),
                _ => fpp(r),
            };
            if r.chance(12) {
                // around the capacity of whole buckets, and where bit counts reach whole words
                let b = ((32768.0 * crate::model::ln2().powf(2.0)) / p.ln()).abs();
                if b.is_finite() && b >= 1.0 && b < 1e15 {
                    c = (b as u64 * r.range(1, 60) + 1).saturating_sub(r.below(3));
                }
            }
            // some kinds of construction fix the version or the optimisation level
            let (ev, eo) = match k {
                "wv" => (v, 0),
                "wc" | "b" | "m" => (2, 0),
                "a" | "ap" => (1, 0),
                "bp" => (2, o),
                _ => (v, o),
            };
            let most = if r.chance(10) { 6e6 } else { 3e5 };
            while crate::model::Model::cost(ev, c, p, eo as u8) > most {
                c /= 3
            }
            s.push(format!("new 0 {} {} {} {:x} {}", k, v, c, p.to_bits(), o));
            if i % 50 == 0 {
                s.extend(floats(r));
            }
            return s;
        }
        "C12" => {
            let mut b = crafted(r, ver, false);
            let mut touch = true;
            match r.below(10) {
                0 => {
                    let n = r.below(b.len() as u64 + 1) as usize;
                    b.truncate(n)
                }
                1 => {
                    // header fields out of range
                    let f = r.below(6) as usize;
                    let x = match r.below(3) {
                        0 => r.u64(),
                        _ => any_int(r),
                    };
                    let at = 8 + 8 * f;
                    if at + 8 <= b.len() {
                        b[at..at + 8].copy_from_slice(&x.to_le_bytes());
                    }
                }
                2 => {
                    let n = r.below(8) as usize;
                    if n < b.len() {
                        b[n] = r.u64() as u8
                    }
                }
                3 => {
                    // flip anything in the header
                    for _ in 0..r.range(1, 4) {
                        let n = r.below(64.min(b.len() as u64)) as usize;
                        if n < b.len() {
                            b[n] ^= 1 << r.below(8)
                        }
                    }
                }
                4 => {
                    let n = r.below(100) as usize;
                    b = r.bytes(n);
                    if r.chance(70) && n > 1 {
                        b[0] = ver;
                        b[1] &= 3;
                    }
                }
                5 => {
                    // announced sizes chosen to overflow
                    let x = *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 52, (1 << 52) - 1, 1 << 61, (1 << 61) - 1, 1 << 40, 1 << 53]);
                    if ver == 1 {
                        b[32..40].copy_from_slice(&x.to_le_bytes());
                    } else if r.chance(50) {
                        b[40..48].copy_from_slice(&x.to_le_bytes());
                    } else {
                        let m = crate::model::Model::parse(&b, false).unwrap();
                        let at = 48 + m.cache.len();
                        b[at..at + 8].copy_from_slice(&x.to_le_bytes());
                    }
                }
                6 => {
                    // cut exactly around the boundaries
                    if let Ok(m) = crate::model::Model::parse(&b, false) {
                        let e = b.len() - m.data.len();
                        let n = (e as i64 + *r.pick(&[-1i64, 0, -8, -4096, -7])).max(0) as usize;
                        b.truncate(n)
                    }
                }
                _ => {}
            }
            if let Ok(m) = crate::model::Model::parse(&b, false) {
                if m.k > 5000 {
                    touch = false
                }
            }
            s.push(format!("load 0 {} {}", lk, enc(&b)));
            s.push(format!("load 2 p {}", enc(&b)));
            s.push(format!("load 3 {} {}", r.pick(&["a", "b", "w"]), enc(&b)));
            if i % 4 == 0 {
                // sources that fail, or deliver their bytes in pieces
                let n = match r.below(4) {
                    0 => r.below(60).min(b.len() as u64),
                    1 => b.len() as u64 - r.below(40).min(b.len() as u64),
                    2 => b.len() as u64,
                    _ => r.below(b.len() as u64 + 1),
                };
                let m = *r.pick(&["fail", "fail", "fail", "short", "intr", "seek"]);
                s.push(format!("loadf {} {} {} {} {}", r.pick(&[lk, lk, "w", "p"]), m, if m == "short" { 1 + n % 700 } else { n }, r.pick(ERRORS), enc(&b)));
            }
            s.push("cpy 0 1".into());
            if touch {
                for k in keys.iter().take(4) {
                    s.push(format!("ins 0 {} {}", form(r), enc(k)));
                    s.push(format!("qry 0 {} {}", form(r), enc(k)));
                }
                s.push(format!("ins 2 slice {}", enc(&keys[0])));
                s.push(format!("qry 2 slice {}", enc(&keys[0])));
                s.push(format!("fill 3 {}", enc(&keys[0])));
            }
            s.push("uni 0 1 merge".into());
            s.push("cmn 0 1".into());
            s.push("uni 2 0 merge".into());
            s.push("int 0 1 merge".into());
            s.push("same 0 2".into());
            s.push("wr 0 ok 0".into());
            s.push("clr 0".into());
            s.push("clr 2".into());
            s.push("rel 0 1 w".into());
            return s;
        }
        "C10" => {
            let mut b = crafted(r, ver, r.clone().chance(50));
            match r.below(6) {
                0 => {
                    let n = r.below(b.len() as u64 + 1) as usize;
                    b.truncate(n)
                }
                1 => {
                    let n = r.below(56.min(b.len() as u64)) as usize;
                    b[n] ^= 1 << r.below(8)
                }
                2 => {
                    if let Ok(m) = crate::model::Model::parse(&b, false) {
                        let e = b.len() - m.data.len();
                        let n = (e as i64 + *r.pick(&[-1i64, 0, -8, -4096])).max(0) as usize;
                        b.truncate(n)
                    }
                }
                _ => {}
            }
            s.push(format!("both {}", enc(&b)));
            if r.chance(20) {
                // data larger than the reader's buffer, sizes larger too
                let mut b = crafted_with(r, ver, true, false);
                b.extend(std::iter::repeat(7u8).take(r.range(8000, 20000) as usize));
                b.push(9);
                s.push(format!("both {}", enc(&b)));
            }
            return s;
        }
        "C16" if i % 10 == 3 => {
            // estimates of many fill levels at once
            let Ok(mut m) = crate::model::Model::create(ver, 40, 0.01, 0) else { return s };
            m.k = r.range(1, 3);
            if ver == 1 {
                m.m = 1 << r.range(6, 21) | r.below(64);
                m.bits = vec![0; ((m.m + 63) / 64 * 8) as usize];
                let n = m.bits.len() as u64;
                m.bits[..r.below(n) as usize].fill(0xff);
            } else {
                m.bits = vec![0; 4096 * r.range(1, 48) as usize];
                for b in m.bits.chunks_mut(4096) {
                    let j = r.below(4096) as usize;
                    b[..j].fill(0xff);
                    b[j] = r.u64() as u8;
                }
            }
            let b = enc(&m.ser());
            s.push(format!("load 0 {} {}", lk, b));
            s.push(format!("load 1 {} {}", lk, b));
            s.push("uni 0 1 merge".into());
            s.push("cmn 0 1".into());
            s.push("int 0 1 merge".into());
            return s;
        }
        "C13" => {
            if i % 50 == 0 {
                s.extend(floats(r));
            }
            // the same key in two forms on two copies
            if r.chance(50) {
                s.push(new_line(r, 0, "bp", 2));
            } else {
                s.push(format!("load 0 b {}", enc(&crafted(r, 2, true))));
            }
            s.push("cpy 0 1".into());
            s.push(new_line(r, 2, "bp", 2));
            for k in &keys {
                let (f, g) = if std::str::from_utf8(k).is_ok() { (*r.pick(FORMS), *r.pick(FORMS)) } else { (*r.pick(&["slice", "vec", "gslice", "gvec", "iter"]), *r.pick(&["slice", "vec", "gslice", "gvec", "iter"])) };
                let q = |s: &mut Vec<String>| {
                    s.push(format!("qry 0 {} {}", f, enc(k)));
                    s.push(format!("qry 1 {} {}", g, enc(k)));
                    s.push("res".into());
                };
                if r.chance(30) {
                    q(&mut s);
                }
                s.push(format!("ins 0 {} {}", f, enc(k)));
                s.push(format!("ins 1 {} {}", g, enc(k)));
                s.push("res".into());
                s.push("diff 0 1".into());
                q(&mut s);
                match r.below(6) {
                    0 => s.push(format!("bad 0 {} uninit {}", r.pick(&["ins", "qry"]), enc(k))),
                    1 => s.push(format!("bad 0 {} adv {}", r.pick(&["ins", "qry"]), enc(k))),
                    2 => {
                        s.push(format!("it2 0 2 {}", enc(k)));
                        s.push(format!("ins 1 slice {}", enc(k)));
                        s.push("diff 0 1".into());
                    }
                    _ => {}
                }
            }
            return s;
        }
        "C17" => {
            let both = |s: &mut Vec<String>, a: String, b: String| {
                s.push(a);
                s.push(b);
                s.push("res".into());
            };
            match r.below(3) {
                0 => {
                    let k = *r.pick(&["w", "wp"]);
                    let l = new_line(r, 0, k, ver);
                    let mut f: Vec<String> = l.split(' ').map(|x| x.to_string()).collect();
                    f[1] = "1".into();
                    f[2] = if ver == 1 { *r.pick(&["a", "ap"]) } else { "bp" }.into();
                    both(&mut s, l, f.join(" "));
                }
                1 => {
                    let k = if ver == 2 { *r.pick(&["wv", "wc", "m"]) } else { "wv" };
                    let l = new_line(r, 0, k, ver);
                    let mut f: Vec<String> = l.split(' ').map(|x| x.to_string()).collect();
                    f[1] = "1".into();
                    f[2] = if ver == 1 { "a" } else { "b" }.into();
                    both(&mut s, l, f.join(" "));
                }
                _ => {
                    let b = enc(&crafted(r, ver, false));
                    both(&mut s, format!("load 0 w {}", b), format!("load 1 {} {}", if ver == 1 { "a" } else { "b" }, b));
                }
            }
            if r.chance(5) {
                s.push(format!("mac {} {:x}", r.range(3, 200), fpp(r).to_bits()));
            }
            s.push("slots 0 1".into());
            s.push("diff 0 1".into());
            s.push("cpy 0 2".into());
            s.push("cpy 1 3".into());
            for _ in 0..r.range(3, 14) {
                let k = enc(r.pick(&keys));
                let bf = r.pick(BYTE_FORMS);
                match r.below(9) {
                    0..=2 => both(&mut s, format!("ins 0 {} {}", bf, k), format!("ins 1 {} {}", bf, k)),
                    3 => both(&mut s, format!("qry 0 {} {}", bf, k), format!("qry 1 {} {}", bf, k)),
                    4 => {
                        let n = r.below(8) as usize;
                        let ks: Vec<String> = (0..n).map(|_| enc(r.pick(&keys))).collect();
                        let t = if n == 0 { "none".into() } else { ks.join(",") };
                        both(&mut s, format!("fill 0 {}", t), format!("fill 1 {}", t))
                    }
                    5 => both(&mut s, "uni 0 2 merge".into(), "uni 1 3 merge".into()),
                    6 => both(&mut s, "cmn 0 2".into(), "cmn 1 3".into()),
                    7 => {
                        s.push("clr 0".into());
                        s.push("clr 1".into())
                    }
                    _ => {
                        both(&mut s, format!("ins 2 {} {}", bf, k), format!("ins 3 {} {}", bf, k));
                        s.push("diff 2 3".into());
                    }
                }
                s.push("diff 0 1".into());
                s.push("same 0 2".into());
                s.push("same 1 3".into());
                s.push("res".into());
            }
            // mixing versions
            s.push(new_line(r, 4, "w", 3 - ver));
            s.push("uni 0 4 merge".into());
            s.push("cmn 0 4".into());
            s.push("same 0 4".into());
            s.push("diff 0 1".into());
            return s;
        }
        "C11" => {
            if r.chance(40) {
                s.push(new_line(r, 0, wk, ver));
            } else {
                s.push(format!("load 0 {} {}", lk, enc(&crafted(r, ver, false))));
            }
            for k in keys.iter().take(3) {
                s.push(format!("ins 0 slice {}", enc(k)));
            }
            for _ in 0..4 {
                let m = *r.pick(&["ok", "short", "intr", "fail", "fail", "failp", "failp", "zero", "zerop", "flushfail"]);
                let n = match m {
                    "short" => r.range(1, 3000),
                    "failp" | "zerop" => r.below(1002),
                    "intr" => r.below(3),
                    _ => match r.below(4) {
                        0 => r.below(60),
                        1 => r.range(4000, 4200),
                        2 => r.below(9000),
                        _ => r.below(2000),
                    },
                };
                s.push(format!("wr 0 {} {} {}", m, n, r.pick(ERRORS)));
            }
            // a destination failing on exactly the last bytes
            if let Some(b) = s[0].strip_prefix("load 0 ").map(|x| crate::engine::dec(x.split(' ').nth(1).unwrap())) {
                for d in 0..3 {
                    s.push(format!("wr 0 fail {}", b.len() - d));
                }
                s.push(format!("wr 0 zero {}", b.len() - 1));
            }
            return s;
        }
        _ => {}
    }
    // common random histories
    two_filters(r, ver, wrapped, &mut s);
    let w: [u64; 10] = match prop {
        // ins qry uni int clr cmn rel fill same many
        "C01" => [40, 10, 12, 3, 2, 0, 12, 4, 0, 6],
        "C02" => [70, 5, 5, 2, 3, 0, 5, 0, 0, 6],
        "C03" => [60, 0, 5, 0, 4, 0, 5, 6, 0, 20],
        "C04" => [25, 5, 45, 0, 3, 0, 5, 0, 5, 3],
        "C05" => [25, 5, 3, 45, 3, 0, 5, 0, 5, 3],
        "C06" => [35, 10, 5, 3, 35, 0, 8, 0, 0, 3],
        "C07" => [30, 3, 5, 5, 3, 0, 40, 0, 0, 3],
        "C08" | "C09" => [50, 25, 3, 2, 3, 0, 14, 0, 0, 4],
        "C16" => [25, 0, 22, 18, 3, 30, 4, 0, 0, 4],
        _ => [30, 10, 8, 5, 4, 5, 8, 3, 2, 4],
    };
    let total: u64 = w.iter().sum();
    for _ in 0..if large { r.range(4, 12) } else { r.range(4, 22) } {
        let mut x = r.below(total);
        let mut op = 0;
        while x >= w[op] {
            x -= w[op];
            op += 1;
        }
        let sl = if r.chance(70) { 0 } else { 1 };
        let k = enc(r.pick(&keys));
        match op {
            0 => {
                if ver == 2 && r.chance(10) && matches!(prop, "C01" | "C02" | "C09") {
                    let (f, n) = *r.pick(&[("u32", 4), ("i64", 8), ("u128", 16)]);
                    let b = r.bytes(n);
                    s.push(format!("ins {} {} {}", sl, f, enc(&b)));
                    s.push(format!("qry {} {} {}", sl, f, enc(&b)));
                } else {
                    s.push(format!("ins {} {} {}", sl, form(r), k))
                }
            }
            1 => s.push(format!("qry {} {} {}", sl, form(r), k)),
            2 => s.push(format!("uni {} {} {}", sl, 1 - sl, r.pick(&["merge", "merge", "own"]))),
            3 => s.push(format!("int {} {} {}", sl, 1 - sl, r.pick(&["merge", "merge", "own"]))),
            4 => s.push(format!("clr {}", sl)),
            5 => s.push(format!("cmn {} {}", sl, if r.chance(20) { sl } else { 1 - sl })),
            6 if matches!(prop, "C07" | "C08" | "C09") && r.chance(8) => {
                let n = match r.below(6) {
                    0 => 0,
                    _ if large => *r.pick(&[1 << 20, (1 << 20) + 1, 1_300_000]),
                    1 => *r.pick(&[4096, 8191, 8192, 8193, 65535, 65536, 65537, 131072]),
                    2 => r.range(1, 100000),
                    _ => r.range(1, 200),
                };
                s.push(format!("data {} {}", sl, n))
            }
            6 => s.push(format!("rel {} {} {}", sl, if r.chance(70) { sl } else { 1 - sl }, if wrapped { "w" } else { *r.pick(&["s", "s", "w"]) })),
            7 => {
                let n = r.below(10) as usize;
                let ks: Vec<String> = (0..n).map(|_| enc(r.pick(&keys))).collect();
                s.push(format!("fill {} {}", sl, if n == 0 { "none".into() } else { ks.join(",") }))
            }
            8 => s.push(format!("same {} {}", sl, 1 - sl)),
            _ => {
                let f = r.below(1000);
                let n = r.range(1, if prop == "C03" { 80 } else { 25 });
                let l = r.below(12) as usize;
                let pre = r.bytes(l);
                s.push(format!("many {} {} {} {} {}", sl, r.pick(BYTE_FORMS), enc(&pre), f, f + n))
            }
        }
    }
    s
}

/// tags a property listens to
pub fn listens(prop: &str, tag: &str) -> bool {
    let (v, t) = match tag.split_once(':') {
        Some((v, t)) => (v, t),
        None => ("", tag),
    };
    let pre = |p: &[&str]| p.iter().any(|x| t.starts_with(x));
    let pan = |p: &[&str]| t.strip_prefix("panic.").map_or(false, |o| p.contains(&o));
    let asp = |ops: &[&str], a: &[&str]| ops.iter().any(|o| t.strip_prefix(o).and_then(|x| x.strip_prefix('.')).map_or(false, |x| a.contains(&x)));
    match prop {
        "C01" => t.ends_with("lost") || pan(&["ins", "qry", "many", "uni", "rel", "fill"]),
        "C02" => asp(&["ins"], &["new", "grow", "count", "bits", "cache", "params", "data", "failchg", "format"]) || pan(&["ins", "many"]),
        "C03" => asp(&["ins"], &["over", "refuse", "errkind"]) || t.ends_with("acc.full") || t == "new.first" || pan(&["ins", "many"]),
        "C04" => (pre(&["uni."]) && !asp(&["uni"], &["est", "lost", "write", "format"]) && !t.contains("acc")) || t == "same" || pan(&["uni", "same"]),
        "C05" => (pre(&["int."]) && !asp(&["int"], &["est", "write", "format"]) && !t.contains("acc")) || pan(&["int"]),
        "C06" => (pre(&["clr."]) && !asp(&["clr"], &["write", "format"])) || pan(&["clr"]),
        "C07" => pre(&["rel."]) && !asp(&["rel"], &["lost"]) || asp(&["load"], &["bits", "cache", "params", "count", "data", "refuse"]) || pan(&["rel"]),
        "C08" | "C09" => {
            v == if prop == "C08" { "1" } else { "2" }
                && (asp(&["ins", "fill"], &["bits", "cache", "format", "params"]) || asp(&["load", "rel", "new"], &["bits", "cache", "format", "params", "count", "data", "accept", "refuse", "write"]) || t == "qry")
        }
        "C10" => t == "part" || pan(&["both"]),
        "C11" => pre(&["wr."]) || pan(&["wr"]),
        "C12" => t.starts_with("panic.") || t == "load.mem" || t == "load.accept",
        "C13" => pre(&["bad.", "it2."]) || t == "diff" || t == "res" || pan(&["bad", "it2", "ins", "qry", "diff"]),
        "C14" => pre(&["bs."]) || t.starts_with("panic.bs"),
        "C15" => pre(&["new."]) && t != "new.firstlost" || pan(&["new"]),
        "C16" => asp(&["uni", "int"], &["est"]) || pre(&["cmn."]) || t.ends_with("acc.ones") || t.ends_with("acc.zeros") || pan(&["uni", "int", "cmn"]),
        "C17" => t == "diff" || t == "res" || t.starts_with("panic."),
        "C22" => pre(&["size."]) || t.ends_with("acc.size") || pan(&["size"]),
        _ => false,
    }
}
