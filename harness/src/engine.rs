//! Executes textual operation scripts on the real filters next to the reference model.
//! Every disagreement is reported as a tag; each property listens to its own tags.

use crate::alloc;
use crate::model::{self, Model, Refuse};
use poppy_filters::{bloom, v1, v2, BloomFilter, Error, OptLevel, Params};
use std::io::{self, Cursor, Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Real {
    W(BloomFilter),
    A(v1::BloomFilter),
    B(v2::BloomFilter),
}

macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            Real::W($b) => $e,
            Real::A($b) => $e,
            Real::B($b) => $e,
        }
    };
}

pub fn opt_of(o: u8) -> OptLevel {
    match o {
        0 => OptLevel::None,
        1 => OptLevel::Space,
        2 => OptLevel::Speed,
        _ => OptLevel::Best,
    }
}

pub fn kind(e: &Error) -> &'static str {
    match e {
        Error::WrongFpp(_) => "Fpp",
        Error::IoError(_) => "Io",
        Error::InvalidVersion(_) => "Version",
        Error::Merge(_) => "Merge",
        Error::OptLevel(_) => "Opt",
        Error::TooManyEntries => "Full",
        Error::UninitIter => "Uninit",
    }
}
fn rkind(r: Refuse) -> String {
    format!("{:?}", r)
}

impl Real {
    fn dup(&self) -> Real {
        match self {
            Real::W(b) => Real::W(b.clone()),
            Real::A(b) => Real::A(b.clone()),
            Real::B(b) => Real::B(b.clone()),
        }
    }
    fn wrapped(&self) -> bool {
        matches!(self, Real::W(_))
    }
    fn ver(&self) -> u8 {
        match self {
            Real::W(b) => b.version(),
            Real::A(_) => 1,
            Real::B(_) => 2,
        }
    }
    pub fn bytes(&self) -> Result<Vec<u8>, Error> {
        let mut v = Vec::new();
        each!(self, b => b.write(&mut v))?;
        Ok(v)
    }
    fn write_to(&self, w: &mut dyn Write) -> Result<(), Error> {
        let mut w = w;
        each!(self, b => b.write(&mut w))
    }
    fn data(&self) -> &[u8] {
        match self {
            Real::W(b) => b.data(),
            Real::A(b) => &b.data,
            Real::B(b) => &b.data,
        }
    }
    fn v1(&self) -> Option<&v1::BloomFilter> {
        match self {
            Real::W(BloomFilter::V1(b)) => Some(b),
            Real::A(b) => Some(b),
            _ => None,
        }
    }
    fn v2(&self) -> Option<&v2::BloomFilter> {
        match self {
            Real::W(BloomFilter::V2(b)) => Some(b),
            Real::B(b) => Some(b),
            _ => None,
        }
    }
    fn v2_mut(&mut self) -> Option<&mut v2::BloomFilter> {
        match self {
            Real::W(BloomFilter::V2(b)) => Some(b),
            Real::B(b) => Some(b),
            _ => None,
        }
    }
    fn insert(&mut self, form: &str, key: &[u8]) -> Option<Result<bool, Error>> {
        let s = std::str::from_utf8(key);
        Some(match form {
            "slice" => each!(self, b => b.insert_bytes(key)),
            "vec" => each!(self, b => b.insert_bytes(key.to_vec())),
            "str" => {
                let s = s.ok()?;
                each!(self, b => b.insert_bytes(s))
            }
            "string" => {
                let s = s.ok()?.to_string();
                each!(self, b => b.insert_bytes(s))
            }
            "gslice" => self.v2_mut()?.insert(&key),
            "gvec" => self.v2_mut()?.insert(&key.to_vec()),
            "gstr" => self.v2_mut()?.insert(&s.ok()?),
            "gstring" => self.v2_mut()?.insert(&s.ok()?.to_string()),
            "iter" => self.v2_mut()?.insert_iter(v2::BloomFilter::build_index_iter(&key)),
            "iters" => self.v2_mut()?.insert_iter(v2::BloomFilter::build_index_iter(&s.ok()?)),
            "u32" => self.v2_mut()?.insert(&u32::from_ne_bytes(key.try_into().ok()?)),
            "i64" => self.v2_mut()?.insert(&i64::from_ne_bytes(key.try_into().ok()?)),
            "u128" => self.v2_mut()?.insert(&u128::from_ne_bytes(key.try_into().ok()?)),
            _ => return None,
        })
    }
    fn contains(&self, form: &str, key: &[u8]) -> Option<bool> {
        let s = std::str::from_utf8(key);
        Some(match form {
            "slice" => each!(self, b => b.contains_bytes(key)),
            "vec" => each!(self, b => b.contains_bytes(key.to_vec())),
            "str" => {
                let s = s.ok()?;
                each!(self, b => b.contains_bytes(s))
            }
            "string" => {
                let s = s.ok()?.to_string();
                each!(self, b => b.contains_bytes(s))
            }
            "gslice" => self.v2()?.contains(&key),
            "gvec" => self.v2()?.contains(&key.to_vec()),
            "gstr" => self.v2()?.contains(&s.ok()?),
            "gstring" => self.v2()?.contains(&s.ok()?.to_string()),
            "iter" => self.v2()?.contains_iter(v2::BloomFilter::build_index_iter(&key)).ok()?,
            "iters" => self.v2()?.contains_iter(v2::BloomFilter::build_index_iter(&s.ok()?)).ok()?,
            "u32" => self.v2()?.contains(&u32::from_ne_bytes(key.try_into().ok()?)),
            "i64" => self.v2()?.contains(&i64::from_ne_bytes(key.try_into().ok()?)),
            "u128" => self.v2()?.contains(&u128::from_ne_bytes(key.try_into().ok()?)),
            _ => return None,
        })
    }
    /// everything observable through accessors, as text
    fn acc(&self, ones: bool) -> String {
        let mut s = format!(
            "version={} capacity={} fpp={:x} count={} size={} full={} data={}",
            self.ver(),
            each!(self, b => b.capacity()),
            each!(self, b => b.fpp()).to_bits(),
            each!(self, b => b.count_estimate()),
            each!(self, b => b.size_in_bytes()),
            each!(self, b => b.is_full()),
            enc(self.data())
        );
        if ones {
            match self {
                Real::W(BloomFilter::V1(b)) | Real::A(b) => {
                    s += &format!(" ones={} zeros={} bits={} hashes={} words={}", b.count_ones(), b.count_zeros(), b.n_bits(), b.n_hash_fn(), b.size_in_u64())
                }
                Real::W(BloomFilter::V2(b)) | Real::B(b) => s += &format!(" ones={} zeros={}", b.count_ones(), b.count_zeros()),
            }
        }
        s
    }
}

/// run-length hex
pub fn enc(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1
        }
        if j - i >= 6 {
            if !o.is_empty() && !o.ends_with('.') {
                o.push('.')
            }
            o += &format!("{:02x}*{}.", b[i], j - i);
            i = j;
        } else {
            o.push(b"0123456789abcdef"[(b[i] >> 4) as usize] as char);
            o.push(b"0123456789abcdef"[(b[i] & 15) as usize] as char);
            i += 1;
        }
    }
    o.trim_end_matches('.').to_string()
}
pub fn dec(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let mut o = vec![];
    for t in s.split('.') {
        let (h, n) = match t.split_once('*') {
            Some((h, n)) => (h, n.parse().unwrap()),
            None => (t, 1usize),
        };
        let one: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        for _ in 0..n {
            o.extend_from_slice(&one)
        }
    }
    o
}

pub struct Slot {
    pub real: Real,
    pub model: Model,
    /// entries whose insertion succeeded and which must still be found
    pub accepted: Vec<(String, Vec<u8>)>,
    /// operations on this filter must not loop for long
    pub big_k: bool,
}

#[derive(Default)]
pub struct State {
    pub slots: Vec<Option<Slot>>,
    pub bs: Vec<Option<crate::bits::Bs>>,
    pub last: Vec<String>,
    pub evals: u64,
    pub mism: Vec<(String, String)>,
}

fn mpos(m: &Model, form: &str, key: &[u8]) -> (Vec<u64>, Option<u64>) {
    match form {
        "u32" | "i64" | "u128" => m.positions_h(model::v2_hash_raw(key)),
        _ => m.positions(key),
    }
}

pub fn error_kind(n: &str) -> io::ErrorKind {
    match n {
        "eof" => io::ErrorKind::UnexpectedEof,
        "block" => io::ErrorKind::WouldBlock,
        "timeout" => io::ErrorKind::TimedOut,
        "pipe" => io::ErrorKind::BrokenPipe,
        "reset" => io::ErrorKind::ConnectionReset,
        "data" => io::ErrorKind::InvalidData,
        "denied" => io::ErrorKind::PermissionDenied,
        "zero" => io::ErrorKind::WriteZero,
        _ => io::ErrorKind::Other,
    }
}

/// A source that fails from a position on, fails to seek, or delivers its bytes in pieces
pub struct FaultReader<'a> {
    pub c: Cursor<&'a [u8]>,
    pub mode: &'a str,
    pub n: u64,
    pub kind: io::ErrorKind,
    pub calls: u64,
    pub reported: bool,
}
impl Read for FaultReader<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let k = match self.mode {
            "intr" if self.calls % (self.n % 3 + 2) != 0 => return Err(io::ErrorKind::Interrupted.into()),
            "short" => b.len().min(self.n.max(1) as usize),
            "fail" => {
                let room = self.n.saturating_sub(self.c.position());
                if room == 0 && !b.is_empty() {
                    self.reported = true;
                    return Err(io::Error::new(self.kind, "source failed"));
                }
                (b.len() as u64).min(room) as usize
            }
            _ => b.len(),
        };
        self.c.read(&mut b[..k])
    }
}
impl Seek for FaultReader<'_> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.calls += 1;
        if self.mode == "seek" && self.calls > self.n % 4 {
            self.reported = true;
            return Err(io::Error::new(self.kind, "source cannot seek"));
        }
        self.c.seek(p)
    }
}

pub struct FaultWriter {
    pub kind: io::ErrorKind,
    pub got: Vec<u8>,
    pub mode: String,
    pub n: usize,
    pub calls: usize,
    pub reported: bool,
}
impl Write for FaultWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let m = self.mode.as_str();
        if m == "intr" && self.calls % (self.n + 2) != 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let room = match m {
            "short" => self.n.max(1),
            "fail" | "zero" => self.n - self.got.len().min(self.n),
            _ => usize::MAX,
        };
        if room == 0 && !b.is_empty() {
            self.reported = true;
            if m == "zero" {
                return Ok(0);
            }
            return Err(io::Error::new(self.kind, "destination failed"));
        }
        let k = b.len().min(room);
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.mode == "flushfail" {
            self.reported = true;
            return Err(io::Error::new(self.kind, "destination failed on flush"));
        }
        Ok(())
    }
}

impl State {
    fn bad(&mut self, tag: &str, msg: String) {
        self.mism.push((tag.to_string(), msg));
    }
    fn put(&mut self, i: usize, s: Option<Slot>) {
        while self.slots.len() <= i {
            self.slots.push(None)
        }
        self.slots[i] = s;
    }
    fn take(&mut self, i: usize) -> Option<Slot> {
        self.slots.get_mut(i).and_then(|s| s.take())
    }

    /// Compare the real state of a slot with its model; resynchronise on disagreement
    fn compare(&mut self, op: &str, s: &mut Slot) {
        self.evals += 1;
        let v = s.real.ver();
        let t = |a: &str| format!("{}:{}.{}", v, op, a);
        let m = &s.model;
        let mut mm: Vec<(String, String)> = vec![];
        if s.model.partial.is_none() {
            match s.real.bytes() {
                Err(e) => mm.push((t("write"), format!("write failed: {}", e))),
                Ok(b) => {
                    let want = m.ser();
                    if b != want {
                        match Model::parse(&b, false) {
                            Err(e) => mm.push((t("format"), format!("written bytes are not a valid filter ({:?})", e))),
                            Ok(r) => {
                                let mut any = false;
                                let mut f = |c: bool, a: &str, d: String| {
                                    if c {
                                        any = true;
                                        mm.push((t(a), d))
                                    }
                                };
                                f(r.flags != m.flags, "params", format!("flags {:?} expected {:?}", r.flags, m.flags));
                                f(r.cap != m.cap, "params", format!("capacity {} expected {}", r.cap, m.cap));
                                f(r.fpp != m.fpp, "params", format!("fpp {:x} expected {:x}", r.fpp, m.fpp));
                                f(r.k != m.k, "params", format!("hash count {} expected {}", r.k, m.k));
                                f(r.m != m.m, "params", format!("bit count {} expected {}", r.m, m.m));
                                f(r.count != m.count, "count", format!("count {} expected {}", r.count, m.count));
                                f(r.bits.len() != m.bits.len(), "params", format!("{} bytes of bits, expected {}", r.bits.len(), m.bits.len()));
                                if r.bits.len() == m.bits.len() && r.bits != m.bits {
                                    f(true, "bits", diff_bits(&r.bits, &m.bits));
                                }
                                f(r.cache.len() != m.cache.len(), "params", format!("{} cache bytes expected {}", r.cache.len(), m.cache.len()));
                                if r.cache.len() == m.cache.len() && r.cache != m.cache {
                                    f(true, "cache", diff_bits(&r.cache, &m.cache));
                                }
                                f(r.data != m.data, "data", format!("data {} expected {}", short(&r.data), short(&m.data)));
                                if !any {
                                    mm.push((t("format"), "written bytes differ from the documented layout".into()))
                                }
                            }
                        }
                    }
                }
            }
        }
        // accessors
        let m = &s.model;
        let r = &s.real;
        let mut acc = |name: &str, got: String, want: String| {
            if got != want {
                mm.push((t(name), format!("{} is {}, expected {}", name, got, want)))
            }
        };
        acc("acc.version", r.ver().to_string(), m.version().to_string());
        acc("acc.capacity", each!(r, b => b.capacity()).to_string(), m.cap.to_string());
        acc("acc.fpp", format!("{:x}", each!(r, b => b.fpp()).to_bits()), format!("{:x}", m.fpp));
        acc("acc.count", each!(r, b => b.count_estimate()).to_string(), m.count.to_string());
        acc("acc.size", each!(r, b => b.size_in_bytes()).to_string(), m.size().to_string());
        acc("acc.full", each!(r, b => b.is_full()).to_string(), (m.count >= m.cap).to_string());
        if r.data() != m.data {
            acc("acc.data", short(r.data()), format!("{} ({} bytes)", short(&m.data), m.data.len()));
        }
        if m.partial.is_none() {
            let ones: u64 = m.bits.iter().map(|b| b.count_ones() as u64).sum();
            let zeros = 8 * m.bits.len() as u64 - ones;
            if let Some(b) = r.v1() {
                acc("acc.ones", b.count_ones().to_string(), ones.to_string());
                acc("acc.zeros", b.count_zeros().to_string(), zeros.to_string());
                acc("acc.nbits", b.n_bits().to_string(), m.m.to_string());
                acc("acc.hashes", b.n_hash_fn().to_string(), m.k.to_string());
                acc("acc.size", b.size_in_u64().to_string(), (m.bits.len() / 8).to_string());
                if m.m <= 4096 {
                    let want: Vec<bool> = (0..m.m).map(|i| model::get(&m.bits, i)).collect();
                    let got = b.bits();
                    if got != want {
                        acc("acc.bits", format!("{:?}", got), format!("{:?}", want));
                    }
                }
            }
            if let Some(b) = r.v2() {
                acc("acc.ones", b.count_ones().to_string(), ones.to_string());
                acc("acc.zeros", b.count_zeros().to_string(), zeros.to_string());
            }
        }
        // nothing accepted may be lost
        if !s.big_k && s.model.partial.is_none() {
            for (f, k) in &s.accepted {
                if s.real.contains(f, k) == Some(false) {
                    mm.push((t("lost"), format!("entry {} ({}) was accepted earlier and is not found", enc(k), f)));
                    break;
                }
            }
        }
        if !mm.is_empty() {
            self.mism.append(&mut mm);
            self.resync(s);
        }
    }
    fn resync(&mut self, s: &mut Slot) {
        if s.model.partial.is_some() {
            return;
        }
        if let Ok(b) = s.real.bytes() {
            if let Ok(m) = Model::parse(&b, false) {
                s.model = m
            }
        }
    }

    pub fn step(&mut self, line: &str) {
        let r = catch_unwind(AssertUnwindSafe(|| self.step_(line)));
        if let Err(p) = r {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let op = line.split(' ').next().unwrap_or("");
            self.bad(&format!("panic.{}", op), format!("panicked: {}", m));
        }
    }

    fn make(kind: &str, ver: u8, cap: u64, p: f64, opt: u8) -> Result<Real, Error> {
        let prm = Params::new(cap as usize, p).version(ver).opt(opt_of(opt));
        Ok(match kind {
            "w" => Real::W(BloomFilter::with_version_capacity_opt(ver, cap as usize, p, opt_of(opt))?),
            "wp" => Real::W(prm.try_into()?),
            "wv" => Real::W(BloomFilter::with_version_capacity(ver, cap as usize, p)?),
            "wc" => Real::W(BloomFilter::with_capacity(cap as usize, p)?),
            // the macro panics where the function refuses
            "m" => {
                BloomFilter::with_capacity(cap as usize, p)?;
                Real::W(bloom!(cap as usize, p))
            }
            "a" => Real::A(v1::BloomFilter::with_capacity(cap, p)?),
            "ap" => Real::A(prm.try_into_v1()?),
            "b" => Real::B(v2::BloomFilter::with_capacity(cap, p)?),
            _ => Real::B(prm.try_into_v2()?),
        })
    }
    fn load(kind: &str, b: &[u8]) -> Result<Real, Error> {
        Self::load_from(kind, Cursor::new(b))
    }
    fn load_from<R: Read + Seek>(kind: &str, r: R) -> Result<Real, Error> {
        Ok(match kind {
            "w" => Real::W(BloomFilter::from_reader(r)?),
            "p" => Real::W(BloomFilter::partial_from_reader(r)?),
            "a" => Real::A(v1::BloomFilter::from_reader(r)?),
            _ => Real::B(v2::BloomFilter::from_reader(r)?),
        })
    }

    fn step_(&mut self, line: &str) {
        let a: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| -> usize { a[i].parse().unwrap() };
        if a[0].starts_with("bs") {
            self.evals += 1;
            let mut mm = vec![];
            crate::bits::step(&mut self.bs, &a, &mut mm);
            self.mism.append(&mut mm);
            return;
        }
        match a[0] {
            // new SLOT KIND VERSION CAPACITY FPPBITS OPT
            "new" => {
                let (kd, ver, cap, opt) = (a[2], n(3) as u8, n(4) as u64, n(6) as u8);
                let p = f64::from_bits(u64::from_str_radix(a[5], 16).unwrap());
                let (ver, opt) = match kd {
                    "wv" => (ver, 0),
                    "wc" | "b" | "m" => (2, 0),
                    "a" | "ap" => (1, 0),
                    "bp" => (2, opt),
                    _ => (ver, opt),
                };
                self.evals += 1;
                let real = Self::make(kd, ver, cap, p, opt);
                self.last.push(match &real {
                    Ok(_) => "ok".into(),
                    Err(e) => e.to_string(),
                });
                let want = Model::create(ver, cap, p, opt);
                match (real, want) {
                    (Ok(r), Ok(mut m)) => {
                        // rounding at an integer boundary may go either way
                        if let Ok(x) = r.bytes().map_err(|_| ()).and_then(|b| Model::parse(&b, false).map_err(|_| ())) {
                            if x != m && Model::sized_ok(&m, &x, opt) {
                                m = x;
                            }
                        }
                        let first = cap > 0;
                        let mut s = Slot { real: r, model: m, accepted: vec![], big_k: false };
                        s.big_k = s.model.k > 5000;
                        self.compare("new", &mut s);
                        if first {
                            let mut c = s.real.dup();
                            match c.insert("slice", b"first entry") {
                                Some(Ok(_)) => {
                                    if c.contains("slice", b"first entry") == Some(false) {
                                        self.bad(&format!("{}:new.firstlost", ver), "first entry not found after insertion".into())
                                    }
                                }
                                Some(Err(e)) => self.bad(&format!("{}:new.first", ver), format!("first entry refused: {}", e)),
                                None => {}
                            }
                        }
                        self.put(n(1), Some(s));
                    }
                    (Err(e), Err(w)) => {
                        if kind(&e) != rkind(w) {
                            self.bad("new.errkind", format!("refused with {} ({}), expected {:?}", kind(&e), e, w))
                        }
                        if let (Error::WrongFpp(x), Refuse::Fpp) = (&e, w) {
                            if x.to_bits() != p.to_bits() && !p.is_nan() {
                                self.bad("new.errkind", format!("error names fpp {} instead of {}", x, p))
                            }
                        }
                        self.put(n(1), None);
                    }
                    (Ok(_), Err(w)) => {
                        self.bad("new.accept", format!("created although it must be refused ({:?})", w));
                        self.put(n(1), None);
                    }
                    (Err(e), Ok(_)) => {
                        self.bad("new.refuse", format!("refused: {}", e));
                        self.put(n(1), None);
                    }
                }
            }
            // mac CAPACITY FPPBITS : filter built with its entries by the macro
            "mac" => {
                let (cap, p) = (n(1), f64::from_bits(u64::from_str_radix(a[2], 16).unwrap()));
                self.evals += 1;
                let x = Real::W(bloom!(cap, p, ["one", "", "a longer entry than eight bytes", "one"]));
                let mut y = Real::W(BloomFilter::with_capacity(cap, p).unwrap());
                for k in ["one", "", "a longer entry than eight bytes", "one"] {
                    y.insert("slice", k.as_bytes());
                }
                if x.bytes().ok() != y.bytes().ok() {
                    self.bad("diff", format!("bloom!({}, {}, [..]) differs from the same insertions", cap, p))
                }
            }
            // load SLOT KIND BYTES
            "load" => {
                let b = dec(a[3]);
                self.load_op(n(1), a[2], &b);
            }
            // loadf KIND MODE N ERROR BYTES : load from a source with faults
            "loadf" => {
                let (kd, b) = (a[1], dec(a[5]));
                self.evals += 1;
                let mut f = FaultReader { c: Cursor::new(&b), mode: a[2], n: n(3) as u64, kind: error_kind(a[4]), calls: 0, reported: false };
                let got = Self::load_from(kd, &mut f);
                match got {
                    Ok(_) if f.reported => self.bad("load.accept", format!("loading succeeds although the source failed ({:?})", f.kind)),
                    Err(e) if !f.reported && kind(&e) == "Io" && Self::load(kd, &b).is_ok() => self.bad("load.accept", format!("loading fails ({}) although the source only delivers in pieces", e)),
                    _ => {}
                }
            }
            // ins SLOT FORM KEY
            "ins" => {
                let Some(mut s) = self.take(n(1)) else { return };
                let key = dec(a[3]);
                self.ins(&mut s, a[2], &key);
                self.put(n(1), Some(s));
            }
            // many SLOT FORM PREFIX FROM TO : insert prefix followed by a little-endian counter
            "many" => {
                let Some(mut s) = self.take(n(1)) else { return };
                let pre = dec(a[3]);
                for i in n(4)..n(5) {
                    let mut k = pre.clone();
                    k.extend_from_slice(&(i as u32).to_le_bytes());
                    self.ins(&mut s, a[2], &k);
                    if !self.mism.is_empty() {
                        break;
                    }
                }
                self.put(n(1), Some(s));
            }
            // qry SLOT FORM KEY
            "qry" => {
                let Some(s) = self.take(n(1)) else { return };
                let key = dec(a[3]);
                self.evals += 1;
                if let Some(got) = s.real.contains(a[2], &key) {
                    self.last.push(got.to_string());
                    if s.model.partial.is_none() {
                        let m = &s.model;
                        let want = match a[2] {
                            "u32" | "i64" | "u128" => {
                                m.usable() && {
                                    let (p, c) = mpos(m, a[2], &key);
                                    p.iter().all(|i| model::get(&m.bits, *i)) && c.map_or(true, |c| model::get(&m.cache, c))
                                }
                            }
                            _ => m.contains(&key),
                        };
                        if got != want {
                            self.bad(&format!("{}:qry", m.version()), format!("query {} ({}) answered {}, expected {}", enc(&key), a[2], got, want))
                        }
                        if !got && s.accepted.iter().any(|(_, k)| k == &key && !matches!(a[2], "u32" | "i64" | "u128")) {
                            self.bad(&format!("{}:qry.lost", m.version()), format!("accepted entry {} not found as {}", enc(&key), a[2]))
                        }
                    }
                }
                self.put(n(1), Some(s));
            }
            // fill SLOT KEY,KEY,...
            "fill" => {
                let Some(mut s) = self.take(n(1)) else { return };
                let keys: Vec<Vec<u8>> = if a[2] == "none" { vec![] } else { a[2].split(',').map(dec).collect() };
                self.evals += 1;
                let v = s.real.ver();
                let got = match &mut s.real {
                    Real::W(b) => b.fill(keys.clone()).map_err(|e| kind(&e).to_string()),
                    _ => {
                        let mut r = Ok(());
                        for k in &keys {
                            if let Some(Err(e)) = s.real.insert("slice", k) {
                                r = Err(kind(&e).to_string());
                                break;
                            }
                        }
                        r
                    }
                };
                self.last.push(format!("{:?}", got));
                let mut want = Ok(());
                let mut done = 0;
                for k in &keys {
                    if let Err(e) = s.model.insert(k) {
                        want = Err(rkind(e));
                        break;
                    }
                    done += 1;
                }
                if got != want {
                    self.bad(&format!("{}:fill.res", v), format!("fill gave {:?}, expected {:?}", got, want))
                }
                if got.is_ok() {
                    done = keys.len()
                }
                for k in &keys[..done] {
                    s.accepted.push(("slice".into(), k.clone()))
                }
                self.compare("fill", &mut s);
                self.put(n(1), Some(s));
            }
            // clr SLOT
            "data" => {
                // attach data through the public field
                let Some(mut s) = self.take(n(1)) else { return };
                let d: Vec<u8> = (0..n(2)).map(|i| (i >> 9) as u8 ^ i as u8).collect();
                match &mut s.real {
                    Real::W(BloomFilter::V1(b)) | Real::A(b) => b.data = d.clone(),
                    Real::W(BloomFilter::V2(b)) | Real::B(b) => b.data = d.clone(),
                }
                s.model.data = d;
                self.compare("data", &mut s);
                self.put(n(1), Some(s));
            }
            "clr" => {
                let Some(mut s) = self.take(n(1)) else { return };
                each!(&mut s.real, b => b.clear());
                s.model.clear();
                let was = std::mem::take(&mut s.accepted);
                self.compare("clr", &mut s);
                if s.model.k > 0 {
                    for (f, k) in was {
                        if s.real.contains(&f, &k) == Some(true) {
                            self.bad(&format!("{}:clr.found", s.real.ver()), format!("entry {} still found after clear", enc(&k)));
                            break;
                        }
                    }
                }
                self.put(n(1), Some(s));
            }
            // uni SLOT OTHER merge|own ; int SLOT OTHER merge|own
            "uni" | "int" => {
                if n(1) == n(2) {
                    return;
                }
                let (Some(mut s), Some(o)) = (self.take(n(1)), self.take(n(2))) else { return };
                self.merge(&mut s, &o, a[0], a[3]);
                self.put(n(1), Some(s));
                self.put(n(2), Some(o));
            }
            // cmn SLOT OTHER
            "cmn" => {
                let (Some(mut s), Some(mut o)) = (self.take(n(1)), if n(1) == n(2) { self.slots[n(1)].as_ref().map(|x| dup_slot(x)) } else { None }.or_else(|| self.take(n(2)))) else {
                    return;
                };
                self.common(&mut s, &mut o);
                if n(1) != n(2) {
                    self.put(n(2), Some(o));
                }
                self.put(n(1), Some(s));
            }
            // same SLOT OTHER
            "same" => {
                let (Some(s), Some(o)) = (self.take(n(1)), self.take(n(2))) else { return };
                self.evals += 1;
                let got = match (&s.real, &o.real) {
                    (Real::W(x), Real::W(y)) => Some(x.has_same_params(y)),
                    (Real::A(x), Real::A(y)) => Some(x.has_same_params(y)),
                    (Real::B(x), Real::B(y)) => Some(x.has_same_params(y)),
                    _ => None,
                };
                if let Some(g) = got {
                    self.last.push(g.to_string());
                    let want = s.model.compatible(&o.model);
                    if g != want {
                        self.bad("same", format!("has_same_params is {}, expected {}", g, want))
                    }
                }
                self.put(n(1), Some(s));
                self.put(n(2), Some(o));
            }
            // cpy SLOT TO
            "cpy" => {
                let Some(s) = self.take(n(1)) else { return };
                let c = dup_slot(&s);
                self.put(n(1), Some(s));
                self.put(n(2), Some(c));
            }
            // rel SLOT TO KIND : save and load again
            "rel" => {
                let Some(mut s) = self.take(n(1)) else { return };
                self.reload(&mut s, n(2), a[3]);
                self.put(n(1), Some(s));
            }
            // both BYTES : full against metadata-only load
            "both" => {
                let b = dec(a[1]);
                self.evals += 1;
                let f = Self::load("w", &b);
                let p = Self::load("p", &b);
                match (f, p) {
                    (Ok(f), Ok(p)) => {
                        let (x, y) = (f.acc(false), p.acc(false));
                        if x != y {
                            self.bad("part", format!("full load: {}; metadata load: {}", x, y))
                        }
                    }
                    (Ok(_), Err(e)) => self.bad("part", format!("metadata load fails ({}) on input accepted by a full load", e)),
                    (Err(e), Ok(_)) => self.bad("part", format!("metadata load accepts input refused by a full load ({})", e)),
                    _ => {}
                }
            }
            // wr SLOT MODE N : write to a faulty destination
            "wr" => {
                let Some(s) = self.take(n(1)) else { return };
                self.evals += 1;
                let want = s.model.ser();
                // failp, zerop: the place of the failure in thousandths of the whole
                let (mode, at) = match a[2] {
                    "failp" => ("fail", want.len() * n(3) / 1000),
                    "zerop" => ("zero", want.len() * n(3) / 1000),
                    m => (m, n(3)),
                };
                let mut w = FaultWriter { kind: error_kind(a.get(4).unwrap_or(&"other")), got: vec![], mode: mode.into(), n: at, calls: 0, reported: false };
                let r = s.real.write_to(&mut w);
                match r {
                    Ok(()) if w.reported => self.bad("wr.ok", "write reports success although the destination failed".into()),
                    Ok(()) if w.got != want => self.bad("wr.bytes", format!("write succeeded with {} bytes delivered, {} expected{}", w.got.len(), want.len(), if w.got.len() == want.len() { " (content differs)" } else { "" })),
                    Err(e) if !w.reported => self.bad("wr.err", format!("write failed ({}) although the destination did not", e)),
                    _ => {}
                }
                self.put(n(1), Some(s));
            }
            // bad SLOT ins|qry uninit|adv KEY : prepared sequences that must be refused
            "bad" => {
                let Some(mut s) = self.take(n(1)) else { return };
                if let Some(b) = s.real.v2_mut() {
                    self.evals += 1;
                    let key = dec(a[4]);
                    let kr: &[u8] = &key;
                    let mut it = match a[3] {
                        "uninit" => Default::default(),
                        _ => {
                            // a sequence has items only once it knows the hash count: take it from a probe
                            v2::BloomFilter::build_index_iter(&kr)
                        }
                    };
                    let mut adv = true;
                    if a[3] == "adv" {
                        adv = it.next().is_some();
                    }
                    if adv {
                        let r = match a[2] {
                            "ins" => b.insert_iter(it),
                            _ => b.contains_iter(it),
                        };
                        match r {
                            Err(Error::UninitIter) => {}
                            Err(e) => self.bad("bad.err", format!("{} sequence refused with {}", a[3], e)),
                            Ok(_) => self.bad("bad.ok", format!("{} sequence was accepted", a[3])),
                        }
                    }
                    self.compare("bad", &mut s);
                }
                self.put(n(1), Some(s));
            }
            // it2 SLOT OTHER KEY : one prepared sequence used with two filters
            "it2" => {
                let (Some(mut s), Some(mut o)) = (self.take(n(1)), self.take(n(2))) else { return };
                let key = dec(a[3]);
                let kr: &[u8] = &key;
                if let (Some(x), Some(y)) = (s.real.v2_mut(), o.real.v2_mut()) {
                    self.evals += 1;
                    let it = v2::BloomFilter::build_index_iter(&kr);
                    let r1 = x.insert_iter(it);
                    let r2 = y.insert_iter(it);
                    let q1 = x.contains_iter(it);
                    for (i, (sl, r)) in [(&mut s, r1), (&mut o, r2)].into_iter().enumerate() {
                        let w = sl.model.insert(&key);
                        if r.as_ref().map_err(|e| kind(e).to_string()).ok() != w.as_ref().ok() {
                            self.bad("it2.res", format!("insertion {} through a shared sequence gave {:?}, expected {:?}", i, r.map_err(|e| e.to_string()), w))
                        }
                        self.compare("it2", sl);
                    }
                    if q1.is_err() {
                        self.bad("it2.qry", "query through a shared sequence refused".into())
                    }
                }
                self.put(n(1), Some(s));
                self.put(n(2), Some(o));
            }
            // diff SLOT OTHER : both must be in the same observable state
            "diff" => {
                let (Some(s), Some(o)) = (self.take(n(1)), self.take(n(2))) else {
                    return;
                };
                self.evals += 1;
                if s.model.partial.is_none() && o.model.partial.is_none() {
                    let (x, y) = (s.real.bytes().ok(), o.real.bytes().ok());
                    if x != y {
                        self.bad("diff", "the two filters write different bytes".into())
                    }
                    let (x, y) = (s.real.acc(true), o.real.acc(true));
                    if x != y {
                        self.bad("diff", format!("accessors differ: {} / {}", x, y))
                    }
                }
                self.put(n(1), Some(s));
                self.put(n(2), Some(o));
            }
            // res : the last two recorded results must be equal
            "res" => {
                let k = self.last.len();
                if k >= 2 && self.last[k - 1] != self.last[k - 2] {
                    let d = format!("results differ: {} / {}", self.last[k - 2], self.last[k - 1]);
                    self.bad("res", d)
                }
            }
            // slots SLOT OTHER : both present or both absent
            "slots" => {
                let f = |s: &State, i: usize| s.slots.get(i).map_or(false, |x| x.is_some());
                if f(self, n(1)) != f(self, n(2)) {
                    self.bad("res", "only one of the two constructions succeeded".into())
                }
            }
            "size" => {
                self.evals += 1;
                let mut mm = vec![];
                crate::bits::bytesize(&a, &mut mm);
                self.mism.append(&mut mm);
            }
            "float" => {
                self.evals += 1;
                let mut mm = vec![];
                crate::probe::step(&a, &mut mm);
                self.mism.append(&mut mm);
            }
            // limit of the hash loop for loaded headers with an absurd hash count
            "bigk" => {
                if let Some(Some(s)) = self.slots.get_mut(n(1)) {
                    s.big_k = true
                }
            }
            x => panic!("unknown operation {}", x),
        }
    }

    fn load_op(&mut self, slot: usize, kd: &str, b: &[u8]) {
        self.evals += 1;
        let (real, big, peak) = alloc::measure(|| Self::load(kd, b));
        self.last.push(match &real {
            Ok(_) => "ok".into(),
            Err(e) => kind(e).into(),
        });
        let lim = 2 * b.len() + 128 * 1024;
        if big > lim || peak > lim {
            self.bad("load.mem", format!("reserved {} bytes (peak {}) for an input of {} bytes", big, peak, b.len()))
        }
        let mut want = Model::parse(b, kd == "p");
        if let Ok(m) = &want {
            if (kd == "a" && m.version() != 1) || (kd == "b" && m.version() != 2) {
                want = Err(Refuse::Version)
            }
        }
        let v = b.first().copied().unwrap_or(0);
        match (real, want) {
            (Ok(r), Ok(m)) => {
                let big_k = m.k > 5000;
                let mut s = Slot { real: r, model: m, accepted: vec![], big_k };
                self.compare("load", &mut s);
                self.put(slot, Some(s));
            }
            (Err(_), Err(_)) => self.put(slot, None),
            (Ok(_), Err(w)) => {
                self.bad(&format!("{}:load.accept", v), format!("input accepted although it must be refused ({:?})", w));
                self.put(slot, None);
            }
            (Err(e), Ok(_)) => {
                self.bad(&format!("{}:load.refuse", v), format!("valid input refused: {}", e));
                self.put(slot, None);
            }
        }
    }

    fn ins(&mut self, s: &mut Slot, form: &str, key: &[u8]) {
        if s.big_k {
            return;
        }
        let before = s.real.bytes().ok();
        let v = s.real.ver();
        let t = |a: &str| format!("{}:ins.{}", v, a);
        let Some(got) = s.real.insert(form, key) else { return };
        self.evals += 1;
        self.last.push(match &got {
            Ok(b) => b.to_string(),
            Err(e) => e.to_string(),
        });
        if got.is_err() && s.model.partial.is_none() {
            if s.real.bytes().ok() != before {
                self.bad(&t("failchg"), format!("refused insertion of {} changed the filter", enc(key)))
            }
        }
        if s.model.partial.is_some() {
            return;
        }
        // novelty judged on the bits that really changed
        if let (Ok(new), Some(b)) = (&got, &before) {
            if let (Ok(x), Ok(y)) = (Model::parse(b, false), s.real.bytes().map_err(|_| Refuse::Io).and_then(|y| Model::parse(&y, false))) {
                let ch = x.bits != y.bits;
                if ch != *new {
                    self.bad(&t("new"), format!("insertion of {} answered {} but membership bits {}", enc(key), new, if ch { "changed" } else { "did not change" }))
                }
                let grow = y.count.wrapping_sub(x.count);
                if grow != ch as u64 {
                    self.bad(&t("grow"), format!("insertion of {}: count went from {} to {}, bits {}", enc(key), x.count, y.count, if ch { "changed" } else { "did not change" }))
                }
            }
        }
        let want = match form {
            "u32" | "i64" | "u128" => {
                let m = &mut s.model;
                if !m.usable() {
                    Err(Refuse::Full)
                } else {
                    let (p, c) = m.positions_h(model::v2_hash_raw(key));
                    m.insert_at(p, c)
                }
            }
            _ => s.model.insert(key),
        };
        match (&got, &want) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    self.bad(&t("new"), format!("insertion of {} answered {}, expected {}", enc(key), a, b))
                }
            }
            (Err(e), Err(w)) => {
                if kind(e) != rkind(*w) {
                    self.bad(&t("errkind"), format!("insertion of {} refused with {}, expected {:?}", enc(key), e, w))
                }
            }
            (Ok(_), Err(_)) => self.bad(&t("over"), format!("insertion of {} accepted although it must be refused (count {} capacity {})", enc(key), s.model.count, s.model.cap)),
            (Err(e), Ok(_)) => self.bad(&t("refuse"), format!("insertion of {} refused ({}) although the filter has room or holds it (count {} capacity {})", enc(key), e, s.model.count, s.model.cap)),
        }
        if got.is_ok() {
            s.accepted.push((form.to_string(), key.to_vec()));
            if s.accepted.len() > 300 {
                s.accepted.remove(100);
            }
        }
        self.compare("ins", s);
    }

    fn merge(&mut self, s: &mut Slot, o: &Slot, op: &str, mode: &str) {
        let v = s.real.ver();
        let t = |a: &str| format!("{}:{}.{}", v, op, a);
        if s.model.partial.is_some() || o.model.partial.is_some() {
            // only absence of panics is of interest
            if let (Real::W(x), Real::W(y)) = (&mut s.real, &o.real) {
                self.evals += 1;
                let _ = x.union_merge(y);
                let _ = x.count_common_entries(y);
            }
            return;
        }
        let before = s.real.bytes().ok();
        let obefore = o.real.bytes().ok();
        let mut gone = false;
        let got: Result<(), Error> = match (&mut s.real, &o.real, op, mode) {
            (Real::W(x), Real::W(y), "uni", _) => x.union_merge(y),
            (Real::A(x), Real::A(y), "uni", _) => x.union_merge(y),
            (Real::B(x), Real::B(y), "uni", "own") => match x.clone().union(y.clone()) {
                Ok(z) => {
                    *x = z;
                    Ok(())
                }
                Err(e) => {
                    gone = true;
                    Err(e)
                }
            },
            (Real::B(x), Real::B(y), "uni", _) => x.union_merge(y),
            (Real::B(x), Real::B(y), "int", "own") => match x.clone().intersection(y.clone()) {
                Ok(z) => {
                    *x = z;
                    Ok(())
                }
                Err(e) => {
                    gone = true;
                    Err(e)
                }
            },
            (Real::B(x), Real::B(y), "int", _) => x.intersection_merge(y),
            _ => return,
        };
        self.evals += 1;
        let _ = gone;
        self.last.push(match &got {
            Ok(_) => "ok".into(),
            Err(e) => kind(e).into(),
        });
        if o.real.bytes().ok() != obefore {
            self.bad(&t("other"), "the other operand changed".into())
        }
        if got.is_err() && s.real.bytes().ok() != before {
            self.bad(&t("failchg"), "a refused merge changed the filter".into())
        }
        let want = s.model.merge(&o.model, op == "int");
        match (&got, &want) {
            (Ok(_), Ok((lo, hi))) => {
                let c = each!(&s.real, b => b.count_estimate());
                if c < *lo || c > *hi {
                    self.bad(&t("est"), format!("estimated count {} after the merge, expected {}", c, lo))
                }
                s.model.count = c;
                if op == "uni" {
                    s.accepted.extend(o.accepted.iter().cloned());
                } else {
                    s.accepted.retain(|x| o.accepted.contains(x));
                }
            }
            (Ok(_), Err(_)) => self.bad(&t("accept"), "filters with different parameters were merged".into()),
            (Err(e), Ok(_)) => self.bad(&t("refuse"), format!("compatible filters were refused: {}", e)),
            (Err(e), Err(w)) => {
                if kind(e) != rkind(*w) {
                    self.bad(&t("errkind"), format!("refused with {}", e))
                }
            }
        }
        self.compare(op, s);
    }

    fn common(&mut self, s: &mut Slot, o: &mut Slot) {
        let call = |a: &Slot, b: &Slot| match (&a.real, &b.real) {
            (Real::W(x), Real::W(y)) => Some(x.count_common_entries(y)),
            (Real::A(x), Real::A(y)) => Some(x.count_common_entries(y)),
            (Real::B(x), Real::B(y)) => Some(x.count_common_entries(y)),
            _ => None,
        };
        let Some(r) = call(s, o) else { return };
        self.evals += 1;
        self.last.push(match &r {
            Ok(x) => x.to_string(),
            Err(e) => kind(e).into(),
        });
        let sym = call(o, s).unwrap();
        if s.model.partial.is_some() || o.model.partial.is_some() {
            return;
        }
        let ok = s.model.compatible(&o.model);
        match (&r, &sym) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    self.bad("cmn.sym", format!("common count {} one way and {} the other", a, b))
                }
                if !ok {
                    self.bad("cmn.accept", "filters with different parameters were compared".into())
                } else {
                    let (lo, hi) = s.model.common(&o.model);
                    if (*a as u64) < lo || *a as u64 > hi {
                        self.bad("cmn.est", format!("common count {}, expected {}", a, lo))
                    }
                }
            }
            (Err(a), Err(_)) => {
                if ok {
                    self.bad("cmn.refuse", format!("compatible filters not compared: {}", a))
                } else if kind(a) != "Merge" {
                    self.bad("cmn.errkind", format!("refused with {}", a))
                }
            }
            _ => self.bad("cmn.sym", "accepted one way only".into()),
        }
        let k = self.mism.len();
        self.compare("cmn", s);
        self.compare("cmn", o);
        if self.mism.len() > k {
            self.bad("cmn.chg", "comparing changed a filter".into())
        }
    }

    fn reload(&mut self, s: &mut Slot, to: usize, kd: &str) {
        if s.model.partial.is_some() {
            return;
        }
        self.evals += 1;
        let v = s.real.ver();
        let kd = match (kd, v) {
            ("s", 1) => "a",
            ("s", _) => "b",
            _ => "w",
        };
        let Ok(b) = s.real.bytes() else {
            self.bad(&format!("{}:rel.write", v), "writing failed".into());
            return;
        };
        match Self::load(kd, &b) {
            Err(e) => {
                // a version 2 header probability is validated on load only
                self.bad(&format!("{}:rel.refuse", v), format!("written filter is refused: {}", e));
            }
            Ok(r) => {
                if r.bytes().ok().as_ref() != Some(&b) {
                    self.bad(&format!("{}:rel.bytes", v), "reloaded filter writes different bytes".into())
                }
                let (x, y) = (s.real.acc(true), r.acc(true));
                if x != y {
                    self.bad(&format!("{}:rel.acc", v), format!("saved: {}; reloaded: {}", x, y))
                }
                if let (Some(p), Some(q)) = (s.real.v1(), r.v1()) {
                    if p.fpp() == p.fpp() && !p.has_same_params(q) {
                        self.bad(&format!("{}:rel.acc", v), "reloaded filter has other parameters".into())
                    }
                    if p.n_bits() < 4096 && p.bits() != q.bits() {
                        self.bad(&format!("{}:rel.acc", v), "reloaded filter has other bits".into())
                    }
                }
                if let (Some(p), Some(q)) = (s.real.v2(), r.v2()) {
                    if !p.has_same_params(q) {
                        self.bad(&format!("{}:rel.acc", v), "reloaded filter has other parameters".into())
                    }
                }
                if !s.big_k {
                    for (f, k) in &s.accepted {
                        if s.real.contains(f, k) != r.contains(f, k) {
                            self.bad(&format!("{}:rel.qry", v), format!("reloaded filter answers differently for {}", enc(k)));
                            break;
                        }
                    }
                    for i in 0..16u8 {
                        let k = [i, b'q', i];
                        if s.real.contains("slice", &k) != r.contains("slice", &k) {
                            self.bad(&format!("{}:rel.qry", v), format!("reloaded filter answers differently for {}", enc(&k)));
                            break;
                        }
                    }
                }
                let mut t = Slot { real: r, model: s.model.clone(), accepted: s.accepted.clone(), big_k: s.big_k };
                self.compare("rel", &mut t);
                self.put(to, Some(t));
            }
        }
    }
}

fn dup_slot(s: &Slot) -> Slot {
    Slot { real: s.real.dup(), model: s.model.clone(), accepted: s.accepted.clone(), big_k: s.big_k }
}
fn short(b: &[u8]) -> String {
    let e = enc(&b[..b.len().min(400)]);
    if e.len() > 80 || b.len() > 400 {
        format!("{}…({} bytes)", &e[..e.len().min(80)], b.len())
    } else {
        e
    }
}
fn diff_bits(g: &[u8], w: &[u8]) -> String {
    let mut ex = vec![];
    let mut mi = vec![];
    for i in 0..g.len() {
        let d = g[i] ^ w[i];
        for b in 0..8 {
            if d >> b & 1 == 1 {
                let x = i * 8 + b;
                if g[i] >> b & 1 == 1 {
                    ex.push(x)
                } else {
                    mi.push(x)
                }
            }
        }
    }
    ex.truncate(8);
    mi.truncate(8);
    format!("unexpected bits {:?}, missing bits {:?}", ex, mi)
}

pub fn wrapped_slot(s: &Slot) -> bool {
    s.real.wrapped()
}
