#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
mod api;
mod driver;
mod exec;
mod gen;
mod model;
mod ops;
mod prng;
mod profiles;
mod sched;
mod shim;
mod vfs;

use driver::*;
use gen::*;
use model::Viol;
use ops::*;
use prng::mix;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[global_allocator]
static A: sched::Alloc = sched::Alloc;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Tally {
    seeds: u64,
    incs: u64,
    crashes: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    threads_max: u64,
    io_calls: u64,
    faults: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    cover: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    edges: BTreeSet<u32>,
    /// (site, kind of fault) pairs at which faults were put
    sites: BTreeSet<u64>,
    nontrivial: u64,
    lin_events: u64,
    lin_gave_up: u64,
    rechecked: u64,
    nondeterministic: u64,
    foreign: BTreeMap<String, u64>,
    foreign_sample: BTreeMap<String, String>,
    known: BTreeMap<String, u64>,
    samples: Vec<String>,
    fail: Option<Fail>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fail {
    spec: Spec,
    viol: Viol,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Known {
    property: String,
    class: String,
    /// the violation text contains all of these
    contains: Vec<String>,
    what: String,
    /// a replay file that shows it
    #[serde(default)]
    replay: Option<String>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct KnownFile {
    findings: Vec<Known>,
    #[serde(default)]
    fixed: Vec<String>,
}
fn known() -> KnownFile {
    match std::fs::read("/verif/known_findings.json") {
        Ok(b) => serde_json::from_slice(&b).expect("known_findings.json"),
        Err(_) => KnownFile::default(),
    }
}

struct Explorer {
    p: Profile,
    t: Tally,
    known: KnownFile,
    until: Instant,
    keep_going: bool,
    last: Instant,
    cov: Cov,
}

impl Explorer {
    fn matches(&self, v: &Viol) -> Option<String> {
        finding(&self.known, &self.p, v)
    }
    /// account for a finished incarnation; true: something is wrong, stop here
    fn note(&mut self, spec: &Spec, n: usize, r: &IncRes) -> bool {
        if std::env::var("TSIM_HASH").is_ok() {
            println!(
                "{} {n} {:016x} steps {} switches {} io {} {} kinds {:?} sync {} workers {} fired {} ops {} wall {:.1}ms",
                spec.seed, r.st.hash, r.st.steps, r.st.switches, r.st.io, r.stop, spec.kinds, spec.sync, spec.workers,
                r.st.fired.len(), spec.incs[n].clients.iter().map(|c| c.len()).sum::<usize>() + spec.incs[n].pre.len(), self.last.elapsed().as_secs_f64() * 1000.0
            );
            if std::env::var("TSIM_DUMP").ok() == Some(format!("{:016x}", r.st.hash)) {
                let mut s = spec.clone();
                s.incs.truncate(n + 1);
                for l in run_spec(&s, true).incs.pop().unwrap().trace {
                    println!("{l}");
                }
            }
            self.last = Instant::now();
        }
        let t = &mut self.t;
        t.incs += 1;
        t.steps += r.st.steps;
        t.switches += r.st.switches;
        t.sim_ns += r.st.now;
        t.io_calls += r.st.io;
        t.threads_max = t.threads_max.max(r.st.threads);
        if r.stop == "crashed" || (r.stop == "done" && spec.incs[n].end == End::Crash) {
            t.crashes += 1;
            *t.faults.entry(format!("{:?}", spec.incs[n].crash)).or_insert(0) += 1;
        }
        for (_, c, k) in &r.st.fired {
            *t.faults.entry(fault_name(*c, k)).or_insert(0) += 1;
        }
        for (k, v) in &r.st.counts {
            *t.counts.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.out.cover {
            let e = t.cover.entry(k.clone()).or_insert(0);
            if k.ends_with("_max") {
                *e = (*e).max(*v);
            } else {
                *e += v;
            }
        }
        let kind = format!(
            "{:?}/{:?}{}{}",
            spec.kinds[0],
            spec.labels,
            if spec.sync { "/sync" } else { "" },
            if spec.workers == 0 && !spec.sync { "/current_thread" } else { "" }
        );
        *t.kinds.entry(kind).or_insert(0) += 1;
        t.lin_events += r.lin_events;
        t.lin_gave_up += r.lin_gave_up;
        if t.sigs.len() < 2_000_000 && t.sigs.insert(r.st.sig) && r.st.switches > 10 && !r.out.cover.is_empty() {
            t.nontrivial += 1;
        }
        if t.samples.len() < 3 && r.st.fired.len() + t.samples.len() > 1 {
            t.samples.push(format!(
                "seed {} inc {n}: {:?} handles {} clients {:?} faults {:?} -> {} after {} steps, {} switches, {} I/O calls",
                spec.seed,
                spec.kinds[0],
                spec.handles,
                spec.incs[n].clients.iter().map(|c| c.iter().map(|s| short_op(&s.op)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                spec.incs[n].faults,
                r.stop,
                r.st.steps,
                r.st.switches,
                r.st.io
            ));
        }
        if r.viol.is_empty() {
            return false;
        }
        let mut hit = None;
        for v in &r.viol {
            if let Some(k) = self.matches(v) {
                *self.t.known.entry(k).or_insert(0) += 1;
            } else if self.keep_going || self.p.accept.contains(&v.class.as_str()) {
                if hit.is_none() {
                    hit = Some(v.clone());
                }
            } else {
                *self.t.foreign.entry(v.class.clone()).or_insert(0) += 1;
                self.t.foreign_sample.entry(v.class.clone()).or_insert(format!("seed {}: {}", spec.seed, v.text));
            }
        }
        if let Some(v) = hit {
            let mut s = spec.clone();
            s.incs.truncate(n + 1);
            if self.keep_going {
                survey(&s, n, &v);
            } else if v.class != "hang" || run_spec(&s, false).viol.iter().any(|x| x.class == "hang") {
                self.t.fail = Some(Fail { spec: s, viol: v });
            }
        }
        true
    }
    fn over(&self) -> bool {
        self.t.fail.is_some() || Instant::now() >= self.until
    }
    fn recheck(&mut self, spec: &Spec, n: usize, node: &Node, r: &IncRes) {
        self.t.rechecked += 1;
        let r2 = run_inc(spec, n, node, false);
        if r2.st.hash != r.st.hash || r2.st.steps != r.st.steps {
            if std::env::var("TSIM_DET").is_ok() {
                let a = run_inc(spec, n, node, true);
                for k in 0..6 {
                    let b = run_inc(spec, n, node, true);
                    let d = a.trace.iter().zip(b.trace.iter()).position(|(x, y)| x != y);
                    println!("seed {} inc {n}: {} {} steps {} {} try {k} first difference {d:?} sync {} workers {} kinds {:?}", spec.seed, a.st.hash, b.st.hash, a.st.steps, b.st.steps, spec.sync, spec.workers, spec.kinds);
                    if let Some(d) = d {
                        for i in d.saturating_sub(12)..(d + 3).min(a.trace.len()).min(b.trace.len()) {
                            println!("  {}\n  {}", a.trace[i].chars().take(150).collect::<String>(), if b.trace[i] == a.trace[i] { "=".into() } else { b.trace[i].chars().take(150).collect::<String>() });
                        }
                        break;
                    }
                }
            }
            self.t.nondeterministic += 1;
        }
    }

    fn seed(&mut self, seed: u64) {
        let p = self.p.clone();
        let (mut spec, sw, mut r) = new_spec(&p, seed);
        self.t.seeds += 1;
        let mut node = Node::start(spec.seed);
        let mem = spec.kinds[0] == Kind::Mem;
        let depth = if mem { 0 } else { r.range(p.depth.0, p.depth.1) };
        for d in 0..=depth as usize {
            let small = d > 0 && r.one_in(2);
            let inc = new_inc(&p, &sw, &mut r, d == 0, small);
            spec.incs.push(inc);
            let base = run_inc(&spec, d, &node, false);
            if (seed + d as u64) % 24 == 0 {
                self.recheck(&spec, d, &node, &base);
            }
            if self.note(&spec, d, &base) || self.over() {
                return;
            }
            let mut cands: Vec<(Spec, Node)> = vec![];
            for _ in 0..p.variants {
                let mut s2 = spec.clone();
                if mem {
                    s2.incs[d].sched = sched_cfg(&mut r);
                    s2.incs[d].entropy = r.next() >> 12;
                } else {
                    add_faults(&p, &mut s2.incs[d], &base.log, &base.odd, base.out.io_lo, base.out.io_hi, &mut r, &mut self.cov);
                }
                let r2 = run_inc(&s2, d, &node, false);
                if r.one_in(24) {
                    self.recheck(&s2, d, &node, &r2);
                }
                if self.note(&s2, d, &r2) {
                    if self.over() {
                        return;
                    }
                    continue;
                }
                if self.over() {
                    return;
                }
                if mem {
                    continue;
                }
                cands.push((s2.clone(), r2.next.clone()));
                let quiet = s2.incs[d].faults.is_empty() && s2.incs[d].end == End::Exit;
                if quiet && !(r2.out.cover.contains_key("op.abandoned") && !r.one_in(4)) {
                    continue;
                }
                let rec = new_inc(&p, &sw, &mut r, false, true);
                s2.incs.push(rec);
                let r3 = run_inc(&s2, d + 1, &r2.next, false);
                if self.note(&s2, d + 1, &r3) {
                    cands.pop();
                }
                if self.over() {
                    return;
                }
            }
            if cands.is_empty() {
                if d as u64 == depth {
                    return;
                }
                cands.push((spec.clone(), base.next.clone()));
            }
            let k = r.below(cands.len() as u64) as usize;
            let c = cands.swap_remove(k);
            spec = c.0;
            node = c.1;
        }
    }
}

/// For development: collect every kind of violation with one example each.
fn survey(s: &Spec, n: usize, v: &Viol) {
    let words: Vec<&str> = v.text.split(' ').map(|w| if w.len() == 40 { "#" } else { w }).collect();
    let mut key: String = words.join(" ").chars().filter(|c| !c.is_ascii_digit()).take(110).collect();
    if let Some(i) = key.find(" from [") {
        key.truncate(i);
    }
    let key = format!("{}: {key}", v.class);
    let h = sched::hash_str(&key);
    let f = format!("/verif/work/survey/{}-{:08x}", v.class.replace(':', "_"), h as u32);
    let _ = std::fs::create_dir_all("/verif/work/survey");
    use std::io::Write;
    if !std::path::Path::new(&f).exists() {
        let fail = Fail { spec: s.clone(), viol: v.clone() };
        std::fs::write(&f, serde_json::to_vec(&fail).unwrap()).unwrap();
    }
    let mut o = std::fs::OpenOptions::new().append(true).create(true).open("/verif/work/survey/log").unwrap();
    writeln!(o, "{f}\t{} seed {} inc {n}\t{}: {}", s.profile, s.seed, v.class, v.text.chars().take(300).collect::<String>()).unwrap();
}

fn short_op(o: &Op) -> String {
    let s = format!("{o:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[i % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return 4;
        }
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).count().clamp(1, 16)
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    violation: String,
    hash: String,
    minimiser_runs: u64,
    original_seed: u64,
    spec: Spec,
    trace: Vec<String>,
}

fn arg<T: std::str::FromStr>(a: &[String], k: &str, d: T) -> T {
    a.iter()
        .position(|x| x == k)
        .and_then(|i| a.get(i + 1))
        .and_then(|v| v.parse().ok())
        .unwrap_or(d)
}
fn env<T: std::str::FromStr>(k: &str, d: T) -> T {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn setup() {
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
        // always run at the same addresses
        let cur = libc::personality(0xffffffff);
        if cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("TSIM_REEXEC").is_err() {
            libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64);
            std::env::set_var("TSIM_REEXEC", "1");
            let mut c = std::process::Command::new("/proc/self/exe");
            c.args(std::env::args().skip(1));
            use std::os::unix::process::CommandExt;
            panic!("{}", c.exec());
        }
    }
}

fn main() {
    setup();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("work") => work(&a),
        Some("replay") => replay(&a),
        Some("seed") => one_seed(&a),
        Some("survey") => {
            let jobs = ncpu();
            let mut kids = vec![];
            for i in 0..jobs {
                kids.push(
                    std::process::Command::new("/proc/self/exe")
                        .args(["work", &a[2], &i.to_string(), &jobs.to_string(), &a[3], &env("VERIF_SEED", 1u64).to_string(), &format!("/verif/work/s{i}.json"), "--keep", "1"])
                        .spawn()
                        .unwrap(),
                );
            }
            let mut t = Tally::default();
            for (i, mut k) in kids.into_iter().enumerate() {
                let _ = k.wait();
                if let Ok(b) = std::fs::read(format!("/verif/work/s{i}.json")) {
                    merge(&mut t, serde_json::from_slice(&b).unwrap());
                }
            }
            println!("seeds {} incs {} sigs {} nondet {}/{} gave up {}", t.seeds, t.incs, t.sigs.len(), t.nondeterministic, t.rechecked, t.lin_gave_up);
            println!("{:?}\n{:?}\n{:?}", t.cover, t.faults, t.counts);
            0
        }
        Some("min") => min_only(&a),
        _ => {
            eprintln!("usage: tsim check|work|replay|seed ...");
            2
        }
    };
    std::process::exit(code);
}

fn work(a: &[String]) -> i32 {
    let p = profiles::profile(&a[2]).expect("property");
    let (i, n): (usize, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let secs: f64 = a[5].parse().unwrap();
    let seed: u64 = a[6].parse().unwrap();
    pin(i);
    let mut e = Explorer {
        p,
        t: Tally::default(),
        known: known(),
        cov: Cov::new(),
        last: Instant::now(),
        until: Instant::now() + Duration::from_secs_f64(secs),
        keep_going: arg(a, "--keep", 0) == 1,
    };
    let mut k = i as u64;
    while !e.over() {
        e.seed(run_seed(seed, k));
        k += n;
    }
    e.t.edges = sched::edges_taken();
    e.t.sites = e.cov.keys().map(|(s, k)| ((*s as u64) << 8) | *k as u64).collect();
    std::fs::write(&a[7], serde_json::to_vec(&e.t).unwrap()).unwrap();
    0
}
fn run_seed(seed: u64, k: u64) -> u64 {
    mix(seed, k) >> 20
}

fn one_seed(a: &[String]) -> i32 {
    let p = profiles::profile(&a[2]).expect("property");
    let mut e = Explorer {
        p,
        t: Tally::default(),
        known: known(),
        cov: Cov::new(),
        last: Instant::now(),
        until: Instant::now() + Duration::from_secs(100),
        keep_going: false,
    };
    e.seed(a[3].parse().unwrap());
    if let Some(f) = &e.t.fail {
        println!("{}: {}", f.viol.class, f.viol.text);
        std::fs::write("/tmp/fail.json", serde_json::to_vec(&f).unwrap()).unwrap();
    }
    println!("incs {} foreign {:?} nondet {}/{}", e.t.incs, e.t.foreign_sample, e.t.nondeterministic, e.t.rechecked);
    0
}

fn min_only(a: &[String]) -> i32 {
    let f: Fail = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
    let out = make_replay(&f.spec.profile.clone(), &f, arg(a, "--secs", 30));
    println!("{out:?}");
    0
}

/// Minimise, record a trace, confirm in a fresh process.
fn make_replay(prop: &str, f: &Fail, secs: u64) -> Option<String> {
    let class = f.viol.class.clone();
    let ok = |v: &Viol| v.class == class;
    let mut m = Mini {
        classes: &ok,
        deadline: Instant::now() + Duration::from_secs(secs),
        tries: 0,
    };
    let small = m.run(&f.spec);
    let tries = m.tries;
    std::fs::create_dir_all("/verif/replays").unwrap();
    for (spec, tag) in [(&small, ""), (&f.spec, "-full")] {
        let r = run_spec(spec, true);
        let Some(v) = r.viol.iter().find(|v| v.class == class) else { continue };
        let mut trace = vec![];
        for (i, x) in r.incs.iter().enumerate() {
            trace.push(format!("--- incarnation {i}: {} after {} steps", x.stop, x.st.steps));
            let n = x.trace.len();
            let keep = 1500;
            if n > keep {
                trace.push(format!("... {} earlier events", n - keep));
            }
            trace.extend(x.trace[n.saturating_sub(keep)..].iter().cloned());
        }
        let rep = Replay {
            property: prop.to_string(),
            class: class.clone(),
            violation: v.text.clone(),
            hash: format!("{:016x}", r.hash),
            minimiser_runs: tries,
            original_seed: spec.seed,
            spec: spec.clone(),
            trace,
        };
        let path = format!("/verif/replays/{prop}-{:x}{tag}.json", spec.seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
        // a fresh process must see exactly the same
        let st = std::process::Command::new("/proc/self/exe")
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .status()
            .unwrap();
        if st.code() == Some(1) {
            return Some(path);
        }
        if st.code() == Some(3) {
            eprintln!("note: {path}: same violation, but another event hash in a fresh process");
            return Some(path);
        }
        eprintln!("note: {path} did not reproduce in a fresh process");
    }
    None
}

/// exit 1: reproduced exactly; 3: same violation, other hash; 0: not reproduced
fn replay(a: &[String]) -> i32 {
    let rep: Replay = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
    let want_trace = a.iter().any(|x| x == "--trace");
    // the recording run kept a trace, so this one does too: identical conditions
    let r = run_spec(&rep.spec, true);
    if want_trace {
        for (i, x) in r.incs.iter().enumerate() {
            println!("--- incarnation {i}: {} after {} steps", x.stop, x.st.steps);
            for l in &x.trace {
                println!("{l}");
            }
            for l in x.next.disk.listing() {
                println!("    disk: {l}");
            }
        }
    }
    for v in &r.viol {
        println!("{}: {}", v.class, v.text);
    }
    let same = format!("{:016x}", r.hash) == rep.hash;
    if r.viol.iter().any(|v| v.class == rep.class) {
        println!("VIOLATION property={} replay={} (event hash {})", rep.property, a[2], if same { "identical" } else { "differs" });
        return if same { 1 } else { 3 };
    }
    println!("not reproduced (event hash {})", if same { "identical" } else { "differs" });
    0
}

fn merge(t: &mut Tally, o: Tally) {
    macro_rules! add { ($($f:ident)*) => { $( t.$f += o.$f; )* } }
    add!(seeds incs crashes steps switches sim_ns io_calls nontrivial lin_events lin_gave_up rechecked nondeterministic);
    t.threads_max = t.threads_max.max(o.threads_max);
    for (a, b) in [
        (&mut t.faults, o.faults),
        (&mut t.counts, o.counts),
        (&mut t.kinds, o.kinds),
        (&mut t.foreign, o.foreign),
        (&mut t.known, o.known),
    ] {
        for (k, v) in b {
            *a.entry(k).or_insert(0) += v;
        }
    }
    for (k, v) in o.cover {
        let e = t.cover.entry(k.clone()).or_insert(0);
        if k.ends_with("_max") {
            *e = (*e).max(v);
        } else {
            *e += v;
        }
    }
    for (k, v) in o.foreign_sample {
        t.foreign_sample.entry(k).or_insert(v);
    }
    t.sigs.extend(o.sigs);
    t.edges.extend(o.edges);
    t.sites.extend(o.sites);
    t.samples.extend(o.samples);
    t.samples.truncate(6);
    if t.fail.is_none() {
        t.fail = o.fail;
    }
}

/// Run what shows the known findings of this property.
fn known_runs(p: &Profile, t: &mut Tally) -> Option<Fail> {
    let known = known();
    for k in known.findings.iter().filter(|k| k.property == p.prop) {
        let Some(f) = &k.replay else { continue };
        let rep: Replay = serde_json::from_slice(&std::fs::read(f).expect(f)).expect(f);
        // the recorded execution, and others close to it where a change of
        // the code has moved things around
        let mut r = prng::Rng::new(7);
        'find: for i in 0..100 {
            let mut spec = rep.spec.clone();
            if i > 0 {
                for inc in spec.incs.iter_mut() {
                    inc.sched.seed = r.next() >> 12;
                    inc.sched.budget = u64::MAX;
                    for f in inc.faults.iter_mut() {
                        f.at = (f.at + r.below(129)).saturating_sub(64);
                    }
                }
            }
            for v in run_spec(&spec, false).viol {
                match finding(&known, p, &v) {
                    Some(what) => {
                        let found = what == k.what;
                        *t.known.entry(what).or_insert(0) += 1;
                        if found {
                            break 'find;
                        }
                    }
                    None if p.accept.contains(&v.class.as_str()) => return Some(Fail { spec, viol: v }),
                    None => {}
                }
            }
        }
    }
    None
}
fn finding(known: &KnownFile, p: &Profile, v: &Viol) -> Option<String> {
    known
        .findings
        .iter()
        .find(|k| k.property == p.prop && k.class == v.class && k.contains.iter().all(|c| v.text.contains(c)))
        .map(|k| k.what.clone())
}

fn check(a: &[String]) -> i32 {
    let start = Instant::now();
    let id = a[2].clone();
    let p = profiles::profile(&id).expect("property");
    let tier = env("VERIF_TIER", "quick".to_string());
    let tier = if arg(a, "--tier", tier.clone()) == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = env("VERIF_SEED", 1u64);
    let secs: f64 = arg(a, "--secs", if tier == "quick" { 25.0 } else { 600.0 });
    let jobs = arg(a, "--jobs", ncpu());
    let mut t = Tally::default();
    let fail = known_runs(&p, &mut t);
    let dir = format!("/verif/work/{id}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let jobs = if fail.is_some() { 0 } else { jobs };
    let mut kids: Vec<(std::process::Child, String, bool)> = vec![];
    for i in 0..jobs {
        let out = format!("{dir}/{i}.json");
        let c = std::process::Command::new("/proc/self/exe")
            .args(["work", &id, &i.to_string(), &jobs.to_string(), &secs.to_string(), &seed.to_string(), &out])
            .spawn()
            .unwrap();
        kids.push((c, out, false));
    }
    t.fail = fail;
    let mut broken = 0;
    let mut left = kids.len();
    while left > 0 {
        std::thread::sleep(Duration::from_millis(30));
        let mut found = false;
        for k in kids.iter_mut() {
            if k.2 {
                continue;
            }
            if let Some(st) = k.0.try_wait().unwrap() {
                k.2 = true;
                left -= 1;
                match std::fs::read(&k.1).ok().and_then(|b| serde_json::from_slice::<Tally>(&b).ok()) {
                    Some(o) => {
                        found |= o.fail.is_some();
                        merge(&mut t, o);
                    }
                    None => {
                        eprintln!("worker failed: {st:?}");
                        broken += 1;
                    }
                }
            }
        }
        if found {
            for k in kids.iter_mut() {
                if !k.2 {
                    let _ = k.0.kill();
                    let _ = k.0.wait();
                    k.2 = true;
                }
            }
            left = 0;
        }
    }
    for k in &kids {
        let _ = std::fs::remove_file(&k.1);
    }
    let _ = std::fs::remove_dir(&dir);
    let mut code = 0;
    let mut replay_path = None;
    if let Some(f) = &t.fail {
        let msecs = if tier == "quick" { 25 } else { 180 };
        replay_path = make_replay(&id, f, msecs);
        match &replay_path {
            Some(path) => {
                println!("{}: {}", f.viol.class, f.viol.text);
                println!("VIOLATION property={id} replay={path}");
                code = 1;
            }
            None => {
                println!("a violation was seen but did not reproduce: {}: {}", f.viol.class, f.viol.text);
                let _ = std::fs::write(format!("/verif/replays/{id}-unconfirmed.json"), serde_json::to_vec(f).unwrap());
                code = 2;
            }
        }
    }
    if broken > 0 && code == 0 {
        code = 2;
    }
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={id} {k} (met {n} times)");
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(&p, tier, seed, &t, wall, replay_path.is_some() as u64, jobs);
    println!(
        "{id} {tier}: {} seeds, {} simulated process lifetimes ({} crashes), {} distinct schedules, {:.1} s, foreign {:?}, nondeterministic {}/{}",
        t.seeds,
        t.incs,
        t.crashes,
        t.sigs.len(),
        wall,
        t.foreign,
        t.nondeterministic,
        t.rechecked
    );
    code
}

fn evidence(p: &Profile, tier: &str, seed: u64, t: &Tally, wall: f64, violations: u64, jobs: usize) {
    let j = serde_json::json!({
        "property": p.prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": t.incs,
            "distinct_nontrivial": t.nontrivial,
            "rule": "One evaluation is one simulated process lifetime: seeded workload, seeded schedule of every thread, seeded faults, on the in-memory disk left by the lifetimes before it. Distinct: the hash over the sequence of (thread, kind of event, thread switch) has not been seen by the same worker; non-trivial: more than ten thread switches and at least one completed oracle observation.",
            "samples": t.samples,
            "seeds": t.seeds,
            "seeds_per_hour": (t.seeds as f64 * 3600.0 / wall) as u64,
            "runs_per_hour": (t.incs as f64 * 3600.0 / wall) as u64,
            "workers": jobs,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "scheduler_steps": t.steps,
            "thread_switches": t.switches,
            "most_threads_in_a_run": t.threads_max,
            "file_system_calls": t.io_calls,
            "crashes": t.crashes,
            "faults_fired": t.faults,
            "fault_sites": t.sites.len(),
            "fault_sites_rule": "Pairs of a kind of fault (crash, error, short transfer, stall) and a site at which one was put. A site: kind of call, sort of file (path without names), first, second or later such call on the open file, and what the client that last started something is doing. Faults go to the sites that had the fewest so far in that worker.",
            "scheduler_events": t.counts,
            "distinct_schedule_signatures": t.sigs.len(),
            "control_flow_edges_of_terminus_store": sched::edges(),
            "control_flow_edges_taken": t.edges.len(),
            "control_flow_edges_rule": "Basic-block edges of the compiled crate (LLVM trace-pc-guard, generic code used by others' instances included where it is compiled into the crate) executed under the simulator at least once. The whole crate counts, also what has nothing to do with this property.",
            "configurations": t.kinds,
            "oracle_observations_and_probes": t.cover,
            "named_graph_history_events_checked": t.lin_events,
            "named_graph_histories_too_large_to_decide": t.lin_gave_up,
            "determinism_reruns": t.rechecked,
            "determinism_mismatches": t.nondeterministic,
            "observations_belonging_to_other_properties": t.foreign_sample,
            "known_findings_met": t.known,
            "real_code": "terminus-store, tdb-succinct, tokio (runtime, fs, sync), rayon, parking_lot, fs2, std: unmodified, compiled from /repo and the cargo cache",
            "simulated": "thread scheduling, futex, clocks and sleeps, entropy, file system (contents, directories, locks, durability, faults), process kill and power loss",
        },
        "assumptions": [
            "preemption happens at libc calls and, in part of the runs, at heap allocations and control-flow edges of terminus-store, not between any two instructions; memory is sequentially consistent",
            "the disk keeps what fsync of a file or directory acknowledged; unsynced directory operations survive as a prefix per directory, unsynced writes as a prefix per file, torn, zeroed or complete",
            "allocation never fails",
        ],
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", p.prop), serde_json::to_vec_pretty(&j).unwrap()).unwrap();
}
