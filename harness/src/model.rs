//! Reference model of both filter versions, written from the property statements.
//! It shares no code with the crate under test (only the published wyhash function).

pub const P: u64 = 18446744073709551557;
pub const G: u64 = 18446744073709550147;
pub const BUCKET: usize = 4096;
const WY_SEED: u64 = 0x706f707079533d42;

pub fn fnv1(d: &[u8]) -> u64 {
    let mut h: u64 = 14695981039346656037;
    for b in d {
        h = h.wrapping_mul(1099511628211);
        h ^= *b as u64;
    }
    h
}

/// bit positions of a key in a version 1 filter
pub fn v1_indices(d: &[u8], m: u64, k: u64) -> Vec<u64> {
    let mut h = fnv1(d) % P;
    (0..k)
        .map(|_| {
            h = h.wrapping_mul(G) % P;
            h % m
        })
        .collect()
}

/// 64-bit hash of a key in a version 2 filter
pub fn v2_hash(d: &[u8]) -> u64 {
    if d.len() <= 8 {
        let mut t = [0u8; 8];
        t[..d.len()].copy_from_slice(d);
        u64::from_le_bytes(t)
    } else {
        wyhash::wyhash(d, WY_SEED)
    }
}

/// hash of an integer key given as its native bytes
pub fn v2_hash_raw(d: &[u8]) -> u64 {
    wyhash::wyhash(d, WY_SEED)
}

pub fn v2_mix(s: u64) -> u64 {
    let a = s ^ (s << 12);
    let b = a ^ (a >> 25);
    let c = b ^ (b << 27);
    c.wrapping_mul(2685821657736338717)
}

/// bit positions inside the bucket
pub fn v2_indices(h: u64, k: u64) -> Vec<u64> {
    let mut a = h;
    let mut b = 0u64;
    (0..k)
        .map(|i| {
            if i == 1 {
                b = wyhash::wyhash(&a.to_be_bytes(), WY_SEED);
            }
            if i >= 1 {
                a = a.wrapping_add(b);
                b = b.wrapping_add(i);
            }
            a % 32768
        })
        .collect()
}

#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub flags: [u8; 8],
    pub cap: u64,
    pub fpp: u64, // bit pattern
    pub k: u64,
    pub count: u64,
    pub m: u64,          // version 1: number of bits
    pub bits: Vec<u8>,   // version 1: blocks as bytes; version 2: buckets, concatenated
    pub cache: Vec<u8>,  // version 2
    pub data: Vec<u8>,
    // set for metadata-only loads: sizes announced
    pub partial: Option<(u64, u64)>,
}

pub fn get(b: &[u8], i: u64) -> bool {
    b[(i / 8) as usize] >> (i % 8) & 1 == 1
}
pub fn set(b: &mut [u8], i: u64) {
    b[(i / 8) as usize] |= 1 << (i % 8)
}
fn ones(b: &[u8]) -> u64 {
    b.iter().map(|x| x.count_ones() as u64).sum()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Refuse {
    Fpp,
    Version,
    Opt,
    Io,
    Full,
    Merge,
    Uninit,
}

pub fn ln2() -> f64 {
    f64::ln(2.0)
}
pub fn f_k(bits: u64, cap: u64) -> f64 {
    (ln2() * bits as f64) / cap as f64
}
pub fn f_bits(cap: u64, p: f64) -> f64 {
    (cap as f64 * p.ln()) / ln2().powf(2.0)
}
pub fn est_p(n: u64, bits: u64) -> f64 {
    let k = f_k(bits, n).ceil() as u64 as f64;
    (1.0 - ((-k * n as f64) / bits as f64).exp()).powf(k)
}
pub fn fpp_ok(p: f64) -> bool {
    p >= f64::MIN_POSITIVE && p <= 1.0
}
/// -(m/k) ln(1 - x/m), before truncation
pub fn est(m: u64, x: u64, k: u64) -> f64 {
    -(m as f64 * (1.0 - x as f64 / m as f64).ln()) / k as f64
}

/// Could `got` be the truncation of the exact value of which v is a rounded computation?
pub fn trunc_ok(v: f64, got: u64) -> bool {
    let t = v as u64;
    if t == got {
        return true;
    }
    if !v.is_finite() {
        return false;
    }
    let e = v.abs() * 1e-12 + 1e-12;
    ((v - e) as u64) == got || ((v + e) as u64) == got
}
pub fn ceil_ok(v: f64, got: u64) -> bool {
    if v.ceil() as u64 == got {
        return true;
    }
    if !v.is_finite() {
        return false;
    }
    let e = v.abs() * 1e-12 + 1e-12;
    ((v - e).ceil() as u64) == got || ((v + e).ceil() as u64) == got
}

impl Model {
    pub fn version(&self) -> u8 {
        self.flags[0]
    }
    pub fn nbuckets(&self) -> u64 {
        (self.bits.len() / BUCKET) as u64
    }

    /// Expected bytes needed, to skip requests that are too large to try
    pub fn cost(version: u8, cap: u64, p: f64, opt: u8) -> f64 {
        if !fpp_ok(p) || opt > 3 {
            return 0.0;
        }
        match version {
            1 => f_bits(cap, p).abs() / 8.0,
            2 => {
                let bc = ((32768.0 * ln2().powf(2.0)) / p.ln()).abs() as u64;
                (cap as f64 / bc as f64).ceil() * 4096.0 * if opt == 2 { 2.0 } else { 1.0 } + if opt >= 2 { cap as f64 / 4.0 } else { 0.0 }
            }
            _ => 0.0,
        }
    }

    pub fn create(version: u8, cap: u64, p: f64, opt: u8) -> Result<Model, Refuse> {
        if opt > 3 {
            return Err(Refuse::Opt);
        }
        if version != 1 && version != 2 {
            return Err(Refuse::Version);
        }
        if !fpp_ok(p) {
            return Err(Refuse::Fpp);
        }
        let mut md = Model {
            flags: [version, if version == 2 { opt } else { 0 }, 0, 0, 0, 0, 0, 0],
            cap,
            fpp: p.to_bits(),
            k: 0,
            count: 0,
            m: 0,
            bits: vec![],
            cache: vec![],
            data: vec![],
            partial: None,
        };
        if version == 1 {
            md.m = f_bits(cap, p).ceil().abs() as u64;
            if cap > 0 && md.m == 0 {
                md.m = 1
            }
            md.k = f_k(md.m, cap).ceil() as u64;
            md.bits = vec![0; ((md.m + 63) / 64 * 8) as usize];
        } else {
            let bc = ((32768.0 * ln2().powf(2.0)) / p.ln()).abs() as u64;
            let mut nb = (cap as f64 / bc as f64).ceil() as u64;
            md.k = f_k(32768, bc).ceil() as u64;
            if opt >= 2 {
                let cbits = cap.next_power_of_two();
                if opt == 2 {
                    nb = nb.next_power_of_two();
                }
                let bpe = (32768.0 / bc as f64).round();
                md.k = (ln2() * est_p(cap, cbits) * bpe).ceil().max(1.0) as u64;
                md.cache = vec![0; ((cbits + 7) / 8) as usize];
            }
            md.bits = vec![0; nb as usize * BUCKET];
        }
        Ok(md)
    }

    /// Is x what creation may give, up to rounding of the formulas at integer boundaries?
    pub fn sized_ok(m: &Model, x: &Model, opt: u8) -> bool {
        let p = f64::from_bits(m.fpp);
        let mut y = m.clone();
        if m.version() == 1 {
            if x.m != m.m {
                let v = f_bits(m.cap, p).abs();
                // ceil of the negative value, so the magnitude is truncated
                if !trunc_ok(v, x.m) || (m.cap > 0 && x.m == 0) {
                    return false;
                }
            }
            y.m = x.m;
            y.k = x.k;
            y.bits = vec![0; ((x.m + 63) / 64 * 8) as usize];
            return &y == x && ceil_ok(f_k(x.m, m.cap), x.k);
        }
        let bv = ((32768.0 * ln2().powf(2.0)) / p.ln()).abs();
        [bv, bv * (1.0 - 1e-12), bv * (1.0 + 1e-12)].iter().any(|bv| {
            let bc = *bv as u64;
            let nv = m.cap as f64 / bc as f64;
            let mut nb = nv.ceil() as u64;
            let mut kv = f_k(32768, bc);
            if opt >= 2 {
                if opt == 2 {
                    nb = nb.next_power_of_two();
                }
                kv = ln2() * est_p(m.cap, m.cap.next_power_of_two()) * (32768.0 / bc as f64).round();
                kv = kv.max(1.0);
            }
            let mut y = m.clone();
            y.k = x.k;
            y.bits = vec![0; nb as usize * BUCKET];
            &y == x && ceil_ok(kv, x.k)
        })
    }

    /// Positions of the entry in `bits`, and its index-cache bit
    pub fn positions(&self, key: &[u8]) -> (Vec<u64>, Option<u64>) {
        if self.version() == 1 {
            (v1_indices(key, self.m, self.k), None)
        } else {
            self.positions_h(v2_hash(key))
        }
    }
    pub fn positions_h(&self, h: u64) -> (Vec<u64>, Option<u64>) {
        let x = v2_mix(h);
        let b = x % self.nbuckets();
        let c = if self.cache.is_empty() { None } else { Some(x & (8 * self.cache.len() as u64 - 1)) };
        (v2_indices(h, self.k).into_iter().map(|i| b * 32768 + i).collect(), c)
    }
    pub fn usable(&self) -> bool {
        self.cap > 0 && !self.bits.is_empty()
    }
    pub fn contains(&self, key: &[u8]) -> bool {
        if self.bits.is_empty() || (self.version() == 2 && self.cap == 0) {
            return false;
        }
        let (p, c) = self.positions(key);
        p.iter().all(|i| get(&self.bits, *i)) && c.map_or(true, |c| get(&self.cache, c))
    }
    pub fn insert(&mut self, key: &[u8]) -> Result<bool, Refuse> {
        if !self.usable() {
            return Err(Refuse::Full);
        }
        let (p, c) = self.positions(key);
        self.insert_at(p, c)
    }
    pub fn insert_at(&mut self, p: Vec<u64>, c: Option<u64>) -> Result<bool, Refuse> {
        let new = p.iter().any(|i| !get(&self.bits, *i));
        if new && self.count >= self.cap {
            return Err(Refuse::Full);
        }
        for i in p {
            set(&mut self.bits, i)
        }
        if let Some(c) = c {
            set(&mut self.cache, c)
        }
        if new {
            self.count += 1
        }
        Ok(new)
    }
    pub fn clear(&mut self) {
        self.bits.iter_mut().for_each(|b| *b = 0);
        self.cache.iter_mut().for_each(|b| *b = 0);
        self.count = 0;
    }
    pub fn compatible(&self, o: &Model) -> bool {
        self.flags == o.flags
            && self.cap == o.cap
            && f64::from_bits(self.fpp) == f64::from_bits(o.fpp)
            && self.k == o.k
            && self.m == o.m
            && self.bits.len() == o.bits.len()
            && self.cache.len() == o.cache.len()
    }
    /// acceptable estimates for these bits: closed interval
    pub fn estimate(&self, bits: &[u8]) -> (u64, u64) {
        let one = |m: u64, b: &[u8]| -> (u64, u64) {
            let v = est(m, ones(b), self.k);
            let e = v.abs() * 1e-12 + 1e-12;
            if v.is_finite() {
                ((v - e) as u64, (v + e) as u64)
            } else {
                (v as u64, v as u64)
            }
        };
        if self.version() == 1 {
            one(self.m, bits)
        } else {
            bits.chunks(BUCKET).map(|b| one(32768, b)).fold((0u64, 0u64), |a, b| (a.0.saturating_add(b.0), a.1.saturating_add(b.1)))
        }
    }
    pub fn common(&self, o: &Model) -> (u64, u64) {
        let b: Vec<u8> = self.bits.iter().zip(&o.bits).map(|(x, y)| x & y).collect();
        self.estimate(&b)
    }
    pub fn merge(&mut self, o: &Model, and: bool) -> Result<(u64, u64), Refuse> {
        if !self.compatible(o) {
            return Err(Refuse::Merge);
        }
        let f = |x: &mut u8, y: &u8| {
            if and {
                *x &= y
            } else {
                *x |= y
            }
        };
        self.bits.iter_mut().zip(&o.bits).for_each(|(x, y)| f(x, y));
        self.cache.iter_mut().zip(&o.cache).for_each(|(x, y)| f(x, y));
        let e = self.estimate(&self.bits.clone());
        self.count = e.0;
        Ok(e)
    }
    pub fn size(&self) -> u64 {
        if let Some((a, b)) = self.partial {
            return a + b;
        }
        (self.bits.len() + self.cache.len()) as u64
    }
    pub fn ser(&self) -> Vec<u8> {
        let mut o = self.flags.to_vec();
        let mut w = |x: u64| o.extend_from_slice(&x.to_le_bytes());
        if self.flags[0] == 1 {
            for x in [self.cap, self.fpp, self.k, self.m, self.count] {
                w(x)
            }
        } else {
            for x in [self.cap, self.fpp, self.k, self.count, 8 * self.cache.len() as u64] {
                w(x)
            }
            o.extend_from_slice(&self.cache);
            o.extend_from_slice(&self.nbuckets().to_le_bytes());
        }
        o.extend_from_slice(&self.bits);
        o.extend_from_slice(&self.data);
        o
    }
    /// What loading these bytes must give
    pub fn parse(s: &[u8], partial: bool) -> Result<Model, Refuse> {
        let w = |i: usize| -> Result<u64, Refuse> {
            s.get(i..i + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or(Refuse::Io)
        };
        if s.len() < 8 {
            return Err(Refuse::Io);
        }
        if s[1] > 3 {
            return Err(Refuse::Opt);
        }
        let mut md = Model {
            flags: s[..8].try_into().unwrap(),
            cap: 0,
            fpp: 0,
            k: 0,
            count: 0,
            m: 0,
            bits: vec![],
            cache: vec![],
            data: vec![],
            partial: None,
        };
        let take = |at: usize, n: u128| -> Result<usize, Refuse> {
            if (s.len() as u128) < at as u128 + n {
                Err(Refuse::Io)
            } else {
                Ok(at + n as usize)
            }
        };
        match s[0] {
            1 => {
                md.cap = w(8)?;
                md.fpp = w(16)?;
                md.k = w(24)?;
                md.m = w(32)?;
                md.count = w(40)?;
                let n = (md.m as u128 + 63) / 64 * 8;
                let e = take(48, n)?;
                if partial {
                    md.partial = Some((n as u64, 0));
                } else {
                    md.bits = s[48..e].to_vec();
                }
                md.data = s[e..].to_vec();
            }
            2 => {
                md.cap = w(8)?;
                md.fpp = w(16)?;
                if !fpp_ok(f64::from_bits(md.fpp)) {
                    return Err(Refuse::Fpp);
                }
                md.k = w(24)?;
                md.count = w(32)?;
                let cb = (w(40)? as u128 + 7) / 8;
                let e = take(48, cb)?;
                let nb = w(e)? as u128;
                let f = take(e + 8, nb * BUCKET as u128)?;
                if partial {
                    md.partial = Some((nb as u64 * 4096, cb as u64));
                } else {
                    md.cache = s[48..e].to_vec();
                    md.bits = s[e + 8..f].to_vec();
                }
                md.data = s[f..].to_vec();
            }
            _ => return Err(Refuse::Version),
        }
        Ok(md)
    }
}
