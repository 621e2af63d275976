mod alloc;
mod bits;
mod engine;
mod gen;
mod model;
mod probe;
mod rng;

use engine::State;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// Runs a script until it shows a disagreement the property listens to
fn run(prop: &str, script: &[String], evals: &mut u64, foreign: &mut u64) -> Option<(usize, String, String)> {
    let mut st = State::default();
    for (i, l) in script.iter().enumerate() {
        st.step(l);
        for (t, m) in st.mism.drain(..) {
            if t == "float" || gen::listens(prop, &t) {
                *evals += st.evals;
                return Some((i, t, m));
            }
            *foreign += 1;
        }
    }
    *evals += st.evals;
    None
}

fn shrink(prop: &str, script: &[String], tag: &str) -> Vec<String> {
    let mut cur = script.to_vec();
    let (mut e, mut f) = (0, 0);
    if let Some((i, _, _)) = run(prop, &cur, &mut e, &mut f) {
        cur.truncate(i + 1)
    }
    let t0 = Instant::now();
    let mut i = cur.len();
    while i > 0 && t0.elapsed() < Duration::from_secs(10) {
        i -= 1;
        let mut c = cur.clone();
        c.remove(i);
        if let Some((_, t, _)) = run(prop, &c, &mut e, &mut f) {
            if t == tag {
                cur = c;
            }
        }
    }
    cur
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // run PROP SEED CASES SECONDS OUTPREFIX
        Some("run") => {
            let prop = &a[2];
            let seed: u64 = a[3].parse().unwrap();
            let cases: u64 = a[4].parse().unwrap();
            let secs: u64 = a[5].parse().unwrap();
            let out = &a[6];
            let t0 = Instant::now();
            let (mut evals, mut foreign, mut done) = (0, 0, 0);
            let mut seen = HashSet::new();
            let mut samples = vec![];
            let mut cur = fs::File::create(format!("{}.cur", out)).unwrap();
            let save = prop == "C12" || std::env::var_os("PVH_SAVE").is_some();
            let mut hit = None;
            for i in 0..cases {
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
                let mut r = rng::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i) ^ prop.bytes().fold(0u64, |h, b| h * 31 + b as u64) << 40);
                let s = gen::case(prop, &mut r, i);
                if save || i % 64 == 0 {
                    use std::io::Seek;
                    let _ = cur.set_len(0);
                    let _ = cur.rewind();
                    let _ = writeln!(cur, "property {}\n{}", prop, s.join("\n"));
                }
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                if s.len() > 0 {
                    seen.insert(h.finish());
                }
                if samples.len() < 3 && i % 7 == 3 {
                    samples.push(s.iter().map(|l| if l.len() > 120 { format!("{}…", &l[..110]) } else { l.clone() }).collect::<Vec<_>>().join("; "));
                }
                done += 1;
                if let Some((_, t, m)) = run(prop, &s, &mut evals, &mut foreign) {
                    let c = shrink(prop, &s, &t);
                    hit = Some((t, m, c));
                    break;
                }
            }
            drop(cur);
            let _ = fs::remove_file(format!("{}.cur", out));
            let v = match &hit {
                None => "null".to_string(),
                Some((t, m, c)) => {
                    let f = format!("{}.case", out);
                    fs::write(&f, format!("# {}: {}\nproperty {}\n{}\n", t, m.replace('\n', " "), prop, c.join("\n"))).unwrap();
                    format!("{{\"tag\":{},\"message\":{},\"case\":{}}}", json(t), json(m), json(&f))
                }
            };
            let j = format!(
                "{{\"cases\":{},\"evaluations\":{},\"distinct\":{},\"other_disagreements\":{},\"samples\":[{}],\"violation\":{},\"wall_s\":{:.3}}}",
                done,
                evals,
                seen.len(),
                foreign,
                samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
                v,
                t0.elapsed().as_secs_f64()
            );
            fs::write(format!("{}.json", out), &j).unwrap();
            println!("{}", j);
        }
        // replay FILE : exit 1 if the recorded case still fails
        Some("replay") => {
            let t = fs::read_to_string(&a[2]).unwrap();
            let mut prop = String::new();
            let mut s = vec![];
            for l in t.lines() {
                if l.starts_with('#') || l.is_empty() {
                    continue;
                }
                match l.strip_prefix("property ") {
                    Some(p) => prop = p.into(),
                    None => s.push(l.to_string()),
                }
            }
            let (mut e, mut f) = (0, 0);
            match run(&prop, &s, &mut e, &mut f) {
                Some((i, t, m)) => {
                    println!("step {} ({}): {}: {}", i + 1, s[i].chars().take(100).collect::<String>(), t, m);
                    std::process::exit(1)
                }
                None => println!("held ({} steps)", s.len()),
            }
        }
        // serve : the reference model behind a line protocol, for the command-line and Python checks
        Some("serve") => serve(),
        _ => {
            eprintln!("usage: pvh run PROP SEED CASES SECONDS OUT | replay FILE | serve");
            std::process::exit(2)
        }
    }
}

fn answer(t: &[&str], slots: &mut std::collections::HashMap<String, model::Model>) -> String {
    let get = |s: &std::collections::HashMap<String, model::Model>, k: &str| s[k].clone();
    let num = |x: &str| x.parse::<u64>().unwrap();
    match t[0] {
        // new SLOT VERSION CAP FPPBITS OPT
        "new" => {
            let p = f64::from_bits(u64::from_str_radix(t[4], 16).unwrap());
            match model::Model::create(num(t[2]) as u8, num(t[3]), p, num(t[5]) as u8) {
                Ok(m) => {
                    slots.insert(t[1].into(), m);
                    "ok".into()
                }
                Err(e) => format!("err {:?}", e),
            }
        }
        // could a filter with these parameters be too large to build here?
        "cost" => {
            let p = f64::from_bits(u64::from_str_radix(t[3], 16).unwrap());
            format!("{}", model::Model::cost(num(t[1]) as u8, num(t[2]), p, num(t[4]) as u8))
        }
        // load SLOT HEX | loadf SLOT PATH
        "load" | "loadf" => {
            let b = if t[0] == "load" { engine::dec(t[2]) } else { fs::read(t[2]).unwrap() };
            match model::Model::parse(&b, false) {
                Ok(m) => {
                    slots.insert(t[1].into(), m);
                    "ok".into()
                }
                Err(e) => {
                    slots.remove(t[1]);
                    format!("err {:?}", e)
                }
            }
        }
        "copy" => {
            let m = get(slots, t[2]);
            slots.insert(t[1].into(), m);
            "ok".into()
        }
        "ins" => match slots.get_mut(t[1]).unwrap().insert(&engine::dec(t[2])) {
            Ok(true) => "new".into(),
            Ok(false) => "old".into(),
            Err(_) => "full".into(),
        },
        // qry SLOT KEY...
        "qry" => t[2..].iter().map(|k| if slots[t[1]].contains(&engine::dec(k)) { '1' } else { '0' }).collect(),
        "uni" => {
            let o = get(slots, t[2]);
            match slots.get_mut(t[1]).unwrap().merge(&o, false) {
                Ok((a, b)) => format!("ok {} {}", a, b),
                Err(_) => "err".into(),
            }
        }
        "cmn" => {
            let o = get(slots, t[2]);
            if slots[t[1]].compatible(&o) {
                let (a, b) = slots[t[1]].common(&o);
                format!("ok {} {}", a, b)
            } else {
                "err".into()
            }
        }
        "count" => {
            slots.get_mut(t[1]).unwrap().count = num(t[2]);
            "ok".into()
        }
        // sized A B OPT : is B an acceptable fresh filter where A is the model's?
        "sized" => format!("{}", model::Model::sized_ok(&slots[t[1]], &slots[t[2]], num(t[3]) as u8) as u8),
        "info" => {
            let m = &slots[t[1]];
            format!("{} {} {:x} {} {} {} {} {}", m.version(), m.cap, m.fpp, m.count, m.size(), m.flags[1], m.k, engine::enc(&m.data))
        }
        "ser" => engine::enc(&slots[t[1]].ser()),
        _ => "?".into(),
    }
}

fn serve() {
    let mut slots = std::collections::HashMap::new();
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let t: Vec<&str> = l.split(' ').collect();
        let a = answer(&t, &mut slots);
        writeln!(out, "{}", a).unwrap();
        out.flush().unwrap();
    }
}
