//! Contract files: plain text, one `@directive` per section.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: String,
    pub clauses: String,
    pub entry: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub n_loops: Option<usize>,
    pub file: String,
    /// takes the token that records output and files created
    pub world: bool,
    pub closures: BTreeMap<usize, ClosureSpec>,
}

/// contract of the K-th thread body of a function
#[derive(Default, Clone, Debug)]
pub struct ClosureSpec {
    pub sig: String,
    pub start: String,
    pub end: String,
}

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub inv: String,
    pub before: String,
    pub start: String,
    pub end: String,
    pub after: String,
}

#[derive(Default, Debug)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub mods: BTreeMap<String, String>,
    pub implitems: BTreeMap<String, String>,
    pub traititems: BTreeMap<String, String>,
    pub drop: Vec<String>,
    pub sizeof: BTreeMap<String, String>,
    /// (function, name, path of the pattern): the function is emitted once for each of these,
    /// under that name, with the other arms of the match left out
    pub splits: Vec<(String, String, String)>,
}

pub fn load(dirs: &[String]) -> Specs {
    let mut s = Specs::default();
    let mut files: Vec<_> = vec![];
    for dir in dirs {
        let mut v: Vec<_> = std::fs::read_dir(dir)
            .expect("spec dir")
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|x| x == "vspec").unwrap_or(false))
            .collect();
        v.sort();
        files.extend(v);
    }
    for f in files {
        let txt = std::fs::read_to_string(&f).unwrap();
        let fname = f.file_name().unwrap().to_string_lossy().to_string();
        let mut cur_fn: Option<String> = None;
        let mut sect: Vec<String> = vec![]; // current directive words
        let mut buf = String::new();
        let flush = |s: &mut Specs, cur_fn: &mut Option<String>, sect: &[String], buf: &str| {
            if sect.is_empty() {
                return;
            }
            let body = buf.to_string();
            let f = |s: &mut Specs, n: &Option<String>| -> String {
                let n = n.clone().expect("section outside @fn");
                s.fns.entry(n.clone()).or_default();
                n
            };
            match sect[0].as_str() {
                "fn" => {
                    let n = sect[1..].join(" ");
                    *cur_fn = Some(n.clone());
                    let e = s.fns.entry(n).or_default();
                    e.file = fname.clone();
                    // first line may be `ret NAME`
                    let mut rest = String::new();
                    for l in body.lines() {
                        let t = l.trim();
                        if let Some(r) = t.strip_prefix("ret ") {
                            e.ret = r.trim().to_string();
                        } else if let Some(a) = t.strip_prefix("attr ") {
                            e.attrs.push_str(a);
                            e.attrs.push('\n');
                        } else if t == "world" {
                            e.world = true;
                        } else if let Some(a) = t.strip_prefix("nloops ") {
                            e.n_loops = Some(a.trim().parse().unwrap());
                        } else {
                            rest.push_str(l);
                            rest.push('\n');
                        }
                    }
                    e.clauses = rest;
                }
                "entry" => {
                    let n = f(s, cur_fn);
                    s.fns.get_mut(&n).unwrap().entry = body;
                }
                "loop" | "loopbefore" | "loopstart" | "loopend" | "loopafter" => {
                    let n = f(s, cur_fn);
                    let k: usize = sect[1].parse().unwrap();
                    let l = s.fns.get_mut(&n).unwrap().loops.entry(k).or_default();
                    match sect[0].as_str() {
                        "loop" => l.inv = body,
                        "loopbefore" => l.before = body,
                        "loopstart" => l.start = body,
                        "loopend" => l.end = body,
                        _ => l.after = body,
                    }
                }
                "closure" | "closurestart" | "closureend" => {
                    let n = f(s, cur_fn);
                    let k: usize = sect[1].parse().unwrap();
                    let l = s.fns.get_mut(&n).unwrap().closures.entry(k).or_default();
                    match sect[0].as_str() {
                        "closure" => l.sig = body,
                        "closurestart" => l.start = body,
                        _ => l.end = body,
                    }
                }
                "split" => s.splits.push((sect[1].clone(), sect[2].clone(), sect[3].clone())),
                "mod" => {
                    *cur_fn = None;
                    s.mods.entry(sect[1].clone()).or_default().push_str(&body);
                }
                "implitem" => {
                    *cur_fn = None;
                    s.implitems.entry(sect[1..].join(" ")).or_default().push_str(&body);
                }
                "traititem" => {
                    *cur_fn = None;
                    s.traititems.entry(sect[1..].join(" ")).or_default().push_str(&body);
                }
                "drop" => s.drop.push(sect[1..].join(" ")),
                "sizeof" => {
                    s.sizeof.insert(sect[1].clone(), sect[2..].join(" "));
                }
                "#" => {}
                x => panic!("{fname}: unknown directive @{x}"),
            }
        };
        for line in txt.lines() {
            if let Some(d) = line.strip_prefix('@') {
                flush(&mut s, &mut cur_fn, &sect, &buf);
                buf.clear();
                sect = d.split_whitespace().map(|x| x.to_string()).collect();
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        flush(&mut s, &mut cur_fn, &sect, &buf);
    }
    s
}
