//! Runs specs: forks a child per incarnation, applies crashes, judges
//! named-graph histories, minimises and replays failures.

use crate::exec::{self, Out};
use crate::model::*;
use crate::ops::*;
use crate::prng::Rng;
use crate::sched::{self, Stop};
use crate::shim::{self, FaultKind, IO_NAMES};
use crate::vfs::{CrashModel, Disk, ROOT};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

const REGION: usize = 512 << 20;
pub const WALL: u32 = 60;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub now: u64,
    pub hash: u64,
    pub sig: u64,
    pub io: u64,
    pub fired: Vec<(u64, shim::Io, FaultKind)>,
    pub counts: BTreeMap<String, u64>,
    pub threads: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Report {
    stop: String,
    detail: String,
    world: World,
    out: Out,
    st: Stats,
    log: Vec<u32>,
    odd: Vec<u64>,
    trace: Vec<String>,
}

#[derive(Clone)]
pub struct Node {
    pub disk: Disk,
    pub world: World,
}
impl Node {
    pub fn start(seed: u64) -> Node {
        let mut disk = Disk::default();
        let strangers = crate::prng::mix(seed, 0x57a) % 6 == 0;
        for n in ["a", "b", "tmp"] {
            let i = disk.create(ROOT, n, true).unwrap();
            if strangers && n != "tmp" {
                // what else people and systems keep in directories
                for (f, dir) in [
                    ("README", false),
                    ("xyz", false),
                    (".nfs000000000001", false),
                    ("graph0.label.bak", false),
                    ("graph1.label~", false),
                    ("lost+found", true),
                    ("old.label.d", true),
                ] {
                    let j = disk.create(i, f, dir).unwrap();
                    disk.fsync(j);
                }
            }
            disk.fsync(i);
        }
        disk.fsync(ROOT);
        Node {
            disk,
            world: World::default(),
        }
    }
}

pub struct IncRes {
    pub stop: String,
    pub next: Node,
    pub viol: Vec<Viol>,
    pub out: Out,
    pub st: Stats,
    pub log: Vec<u32>,
    pub odd: Vec<u64>,
    pub trace: Vec<String>,
    pub lin_events: u64,
    pub lin_gave_up: u64,
}

struct Region {
    p: *mut u8,
}
static mut REG: *mut u8 = std::ptr::null_mut();
fn region() -> Region {
    unsafe {
        if REG.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                REGION,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            REG = p as *mut u8;
        }
        Region { p: REG }
    }
}

fn on_stop(s: Stop) -> ! {
    // the simulation is frozen: this thread is the only one that runs
    let _np = sched::NoPreempt::new();
    let (stop, detail) = match s {
        Stop::Done => ("done", String::new()),
        Stop::Crashed => ("crashed", String::new()),
        Stop::Deadlock(t) => ("deadlock", t),
        Stop::Livelock(t) => ("livelock", t),
    };
    let (world, out) = exec::finish(stop == "crashed");
    let sim = sched::sim();
    let fs = shim::fs();
    let rep = Report {
        stop: stop.into(),
        detail,
        world,
        out,
        st: Stats {
            steps: sim.steps,
            switches: sim.switches,
            preempts: sim.preempts,
            now: sim.now - 1_000_000_000,
            hash: sim.hash,
            sig: sim.sig,
            io: fs.io,
            fired: fs.fired.clone(),
            counts: sim
                .counts
                .iter()
                .map(|(k, v)| (k.to_string(), *v))
                .chain([("switches at control-flow edges".to_string(), sim.edge_switches)])
                .collect(),
            threads: sim.thr.len() as u64,
        },
        log: fs.log.clone(),
        odd: fs.odd.clone(),
        trace: sim.trace.take().unwrap_or_default(),
    };
    let j = serde_json::to_vec(&rep).unwrap();
    let d = fs.disk.to_bytes();
    unsafe {
        let r = region();
        if 24 + j.len() + d.len() <= REGION {
            std::ptr::copy_nonoverlapping(j.as_ptr(), r.p.add(24), j.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), r.p.add(24 + j.len()), d.len());
            *(r.p as *mut u64).add(1) = j.len() as u64;
            *(r.p as *mut u64).add(2) = d.len() as u64;
            (*(r.p as *const AtomicU64)).store(1, Ordering::SeqCst);
        }
        libc::_exit(0)
    }
}

pub fn run_inc(spec: &Spec, n: usize, node: &Node, trace: bool) -> IncRes {
    let inc = &spec.incs[n];
    let r = region();
    unsafe { (*(r.p as *const AtomicU64)).store(0, Ordering::SeqCst) };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(WALL);
            let dn = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if std::env::var("TSIM_STDERR").is_err() {
                libc::dup2(dn, 2);
            }
            libc::dup2(dn, 1);
        }
        std::env::set_var("RUST_MIN_STACK", "1000000");
        std::env::set_var("RAYON_NUM_THREADS", spec.rayon.max(1).to_string());
        std::env::set_var("TOKIO_WORKER_THREADS", spec.workers.max(1).to_string());
        std::panic::set_hook(Box::new(|i| {
            let t = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
            eprintln!("panic at {loc}: {t}");
            if exec::have_ctx() && sched::active() {
                if loc.starts_with("src/exec.rs") || loc.starts_with("src/model.rs") || loc.starts_with("src/shim.rs") {
                    exec::viol("harness", format!("harness panic at {loc}: {t}"));
                } else {
                    exec::viol("panic", format!("panic at {loc}: {t}"));
                }
            }
        }));
        // what the process is given must not depend on the other incarnations
        // of the run: the same allocations, the same execution
        let mut only = spec.clone();
        only.incs = vec![inc.clone()];
        unsafe { sched::arena_start() };
        let disk = node.disk.clone();
        shim::fs_start(disk, inc.faults.clone(), crate::prng::mix(inc.entropy, 77));
        let (sp, w) = (only.clone(), node.world.clone());
        sched::start(inc.sched.clone(), inc.entropy, trace, on_stop);
        sched::sim().max_steps = 1_500_000;
        let t = std::thread::spawn(move || exec::main_thread(sp, n as u32, w));
        let _ = t.join();
        sched::stop_now(Stop::Done);
    }
    let mut status = 0;
    unsafe {
        while libc::waitpid(pid, &mut status, 0) < 0 {}
    }
    let ok = unsafe { (*(r.p as *const AtomicU64)).load(Ordering::SeqCst) } == 1;
    if !ok {
        let sig = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
        let class = if sig == libc::SIGALRM { "hang" } else { "abort" };
        return IncRes {
            stop: class.into(),
            next: node.clone(),
            viol: vec![Viol {
                class: class.into(),
                text: format!("the process died with signal {sig}, status {status:#x}"),
                inc: n as u32,
            }],
            out: Out::default(),
            st: Stats::default(),
            log: vec![],
            odd: vec![],
            trace: vec![],
            lin_events: 0,
            lin_gave_up: 0,
        };
    }
    let (rep, disk) = unsafe {
        let jl = *(r.p as *const u64).add(1) as usize;
        let dl = *(r.p as *const u64).add(2) as usize;
        let j = std::slice::from_raw_parts(r.p.add(24), jl);
        let d = std::slice::from_raw_parts(r.p.add(24 + jl), dl);
        (serde_json::from_slice::<Report>(j).expect("report"), Disk::from_bytes(d))
    };
    judge(spec, n, node, rep, disk)
}

fn short(f: &str) -> String {
    if let Some(p) = f.find("/src/") {
        // keep the crate directory
        let a = &f[..p];
        let c = a.rsplit('/').next().unwrap_or("");
        return format!("{c}{}", &f[p..]);
    }
    f.to_string()
}

fn judge(spec: &Spec, n: usize, node: &Node, rep: Report, disk: Disk) -> IncRes {
    let inc = &spec.incs[n];
    let mut viol = rep.out.viol.clone();
    let done = rep.stop == "done";
    let crashed = rep.stop == "crashed" || (done && inc.end == End::Crash);
    if rep.stop == "deadlock" || rep.stop == "livelock" {
        viol.push(Viol {
            class: rep.stop.clone(),
            text: format!(
                "[{}] {}; unfinished: {}; threads: {}",
                rep.out.phase,
                if rep.stop == "deadlock" {
                    "nothing can run any more".to_string()
                } else {
                    format!("no end after {} steps", rep.st.steps)
                },
                rep.out.pending.join("; "),
                rep.detail
            ),
            inc: n as u32,
        });
    }
    let mut world = rep.world;
    // named-graph histories
    let mut by: BTreeMap<String, Vec<LEv>> = BTreeMap::new();
    for e in &rep.out.hist {
        if !e.label.is_empty() {
            let mut e = e.clone();
            if done && e.res == LRes::Unknown && e.inv < rep.out.settled {
                e.ret = rep.out.settled;
            }
            by.entry(e.label.clone()).or_default().push(e);
        }
    }
    let (mut evn, mut gave) = (0u64, 0u64);
    let power = crashed && inc.crash != CrashModel::Kill;
    let mut labels = world.labels.clone();
    let aborted = rep.stop == "deadlock" || rep.stop == "livelock";
    for (k, evs) in &by {
        let init = world.labels.get(k).cloned().unwrap_or_else(|| vec![None]);
        if evs.len() > 120 {
            gave += 1;
            labels.insert(k.clone(), vec![]);
            continue;
        }
        evn += evs.len() as u64;
        let mut budget = 400_000u64;
        match linearize(&world, &init, evs, &mut budget) {
            Ok(fin) => {
                labels.insert(k.clone(), fin);
            }
            Err(true) => {
                gave += 1;
                // unknown from here on
                labels.insert(k.clone(), vec![]);
            }
            Err(false) if init.is_empty() => {
                labels.insert(k.clone(), vec![]);
            }
            Err(false) => {
                // would it be fine from some other starting point?
                let mut alt: BTreeSet<LState> = BTreeSet::new();
                alt.insert(None);
                for e in evs {
                    if let LRes::State(v, l) = &e.res {
                        alt.insert(Some((*v, *l)));
                    }
                    if let LRes::Head(l) = &e.res {
                        for (v, _) in init.iter().flatten() {
                            alt.insert(Some((*v, *l)));
                        }
                    }
                }
                for i in &init {
                    alt.insert(*i);
                }
                let alt: Vec<LState> = alt.into_iter().collect();
                let mut b2 = 400_000;
                let durable = n > 0 && linearize(&world, &alt, evs, &mut b2).is_ok();
                let mut text = String::new();
                for e in evs.iter().take(60) {
                    text.push_str(&format!(
                        " c{} [{}-{}] {:?} -> {:?};",
                        e.who,
                        e.inv,
                        if e.ret == INF { "?".to_string() } else { e.ret.to_string() },
                        e.op,
                        e.res
                    ));
                }
                viol.push(Viol {
                    class: if durable { "durable-label" } else { "lin" }.into(),
                    text: if durable {
                        format!("graph {k}: after the restart it is in none of the allowed states {init:?}; observed:{text}")
                    } else {
                        format!("graph {k}: history is not linearizable from {init:?}:{text}")
                    },
                    inc: n as u32,
                });
                labels.insert(k.clone(), vec![]);
            }
        }
        if power {
            // what must survive follows from acknowledged updates only
            let muts: Vec<LEv> = evs.iter().filter(|e| is_mut(e)).cloned().collect();
            let mut b = 400_000;
            let fin = linearize(&world, &init, &muts, &mut b).unwrap_or_default();
            if !labels[k].is_empty() {
                labels.insert(k.clone(), fin);
            }
        }
    }
    world.labels = labels;
    // unreadable labels (history too long): forget, accept anything next time
    let mut next = disk;
    let mut rng = Rng::new(inc.crash_seed);
    if power {
        // what was not acknowledged may be undone
        for l in world.layers.iter_mut() {
            l.found = [false; 2];
        }
    }
    next = next.crash(if crashed { inc.crash } else { CrashModel::Kill }, &mut rng);
    if !aborted {
        world.inc = n as u32 + 1;
        for st in 0..2 {
            if spec.kinds[st] == Kind::Mem {
                for l in world.layers.iter_mut() {
                    l.st[st] = St::Absent;
                }
                let pre = format!("{st}/");
                world.labels.retain(|k, _| !k.starts_with(&pre));
            }
        }
    }
    // What was never acknowledged but is there after a restart without power
    // loss counts as there from then on, so it has to be on disk (as it will
    // be after a while on a real system).
    let unsure = world.layers.iter().any(|l| l.st.iter().any(|s| matches!(s, St::Building | St::Maybe)))
        || world.labels.values().any(|v| v.len() != 1)
        || rep.out.hist.iter().any(|e| e.res == LRes::Unknown && is_mut(e));
    if !power && unsure {
        next.sync_all();
    }
    let _ = node;
    IncRes {
        stop: rep.stop,
        next: Node { disk: next, world },
        viol,
        out: rep.out,
        st: rep.st,
        log: rep.log,
        odd: rep.odd,
        trace: rep.trace,
        lin_events: evn,
        lin_gave_up: gave,
    }
}

/// Run a whole spec from the beginning.
pub struct RunRes {
    pub viol: Vec<Viol>,
    pub hash: u64,
    pub incs: Vec<IncRes>,
}
pub fn run_spec(spec: &Spec, trace: bool) -> RunRes {
    let mut node = Node::start(spec.seed);
    let mut incs = vec![];
    let mut hash = 0u64;
    let mut viol = vec![];
    for n in 0..spec.incs.len() {
        let r = run_inc(spec, n, &node, trace);
        hash = crate::prng::mix(hash, r.st.hash);
        viol = r.viol.clone();
        node = r.next.clone();
        incs.push(r);
        if !viol.is_empty() {
            break;
        }
    }
    RunRes { viol, hash, incs }
}

pub fn fault_name(class: shim::Io, k: &FaultKind) -> String {
    let c = IO_NAMES[class as usize];
    match k {
        FaultKind::Crash { .. } => format!("crash@{c}"),
        FaultKind::Errno(e) => format!("{}@{c}", errno_name(*e)),
        FaultKind::Short => format!("short@{c}"),
        FaultKind::Stall(_) => format!("stall@{c}"),
        FaultKind::LateCrash(_) => format!("stall_then_crash@{c}"),
    }
}
fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EMFILE => "EMFILE",
        libc::EACCES => "EACCES",
        _ => "errno",
    }
}

// ------------------------------------------------------------------ minimisation

pub struct Mini<'a> {
    pub classes: &'a dyn Fn(&Viol) -> bool,
    pub deadline: std::time::Instant,
    pub tries: u64,
}

impl Mini<'_> {
    fn fails(&mut self, s: &Spec) -> Option<Spec> {
        // try the schedule as it is, then a few others
        for k in 0..7u64 {
            if std::time::Instant::now() > self.deadline {
                return None;
            }
            let mut c = s.clone();
            if k > 0 {
                for (i, inc) in c.incs.iter_mut().enumerate() {
                    inc.sched.seed = crate::prng::mix(inc.sched.seed, k * 16 + i as u64) >> 12;
                    if k > 3 {
                        let mut r = Rng::new(inc.sched.seed);
                        for f in inc.faults.iter_mut() {
                            f.at = (f.at as i64 + r.below(9) as i64 - 6).max(0) as u64;
                        }
                    }
                }
            }
            self.tries += 1;
            let r = run_spec(&c, false);
            if r.viol.iter().any(|v| (self.classes)(v)) {
                // later incarnations did not run
                c.incs.truncate(r.incs.len());
                return Some(c);
            }
        }
        None
    }

    pub fn run(&mut self, s: &Spec) -> Spec {
        let mut cur = s.clone();
        loop {
            let before = size(&cur);
            // whole leading incarnations' work
            for i in (0..cur.incs.len()).rev() {
                if i + 1 < cur.incs.len() && cur.incs.len() > 1 {
                    let mut c = cur.clone();
                    c.incs[i].clients.clear();
                    if let Some(x) = self.fails(&c) {
                        cur = x;
                    }
                    if i < cur.incs.len() {
                        let mut c = cur.clone();
                        c.incs.remove(i);
                        if !c.incs.is_empty() {
                            if let Some(x) = self.fails(&c) {
                                cur = x;
                            }
                        }
                    }
                }
            }
            // faults
            for i in 0..cur.incs.len() {
                let mut j = 0;
                while i < cur.incs.len() && j < cur.incs[i].faults.len() {
                    let mut c = cur.clone();
                    c.incs[i].faults.remove(j);
                    match self.fails(&c) {
                        Some(x) => cur = x,
                        None => j += 1,
                    }
                }
            }
            // clients
            for i in 0..cur.incs.len() {
                let mut j = 0;
                while i < cur.incs.len() && j < cur.incs[i].clients.len() {
                    let mut c = cur.clone();
                    c.incs[i].clients.remove(j);
                    match self.fails(&c) {
                        Some(x) => cur = x,
                        None => j += 1,
                    }
                }
            }
            // steps
            for i in 0..cur.incs.len() {
                let mut j = 0;
                while i < cur.incs.len() && j < cur.incs[i].clients.len() {
                    let mut k = 0;
                    while i < cur.incs.len() && j < cur.incs[i].clients.len() && k < cur.incs[i].clients[j].len() {
                        let mut c = cur.clone();
                        c.incs[i].clients[j].remove(k);
                        match self.fails(&c) {
                            Some(x) => cur = x,
                            None => k += 1,
                        }
                    }
                    j += 1;
                }
                let mut k = 0;
                while i < cur.incs.len() && k < cur.incs[i].pre.len() {
                    let mut c = cur.clone();
                    c.incs[i].pre.remove(k);
                    match self.fails(&c) {
                        Some(x) => cur = x,
                        None => k += 1,
                    }
                }
            }
            // edits, halved
            for i in 0..cur.incs.len() {
                let np = cur.incs[i].pre.len();
                for k in 0..np {
                    if i >= cur.incs.len() || k >= cur.incs[i].pre.len() {
                        break;
                    }
                    let mut c = cur.clone();
                    if shrink(&mut c.incs[i].pre[k].op) {
                        if let Some(x) = self.fails(&c) {
                            cur = x;
                        }
                    }
                }
                let nc = if i < cur.incs.len() { cur.incs[i].clients.len() } else { 0 };
                for j in 0..nc {
                    let mut k = 0;
                    while i < cur.incs.len() && j < cur.incs[i].clients.len() && k < cur.incs[i].clients[j].len() {
                        let mut c = cur.clone();
                        if shrink(&mut c.incs[i].clients[j][k].op) {
                            if let Some(x) = self.fails(&c) {
                                cur = x;
                            }
                        }
                        k += 1;
                    }
                }
            }
            // configuration
            for f in [
                |s: &mut Spec| s.handles = 1,
                |s: &mut Spec| s.kinds[1] = Kind::Mem,
                |s: &mut Spec| s.rayon = 1,
                |s: &mut Spec| s.workers = 0,
                |s: &mut Spec| s.sync = false,
            ] {
                let mut c = cur.clone();
                f(&mut c);
                if serde_json::to_string(&c).unwrap() != serde_json::to_string(&cur).unwrap() {
                    if let Some(x) = self.fails(&c) {
                        cur = x;
                    }
                }
            }
            if size(&cur) >= before || std::time::Instant::now() > self.deadline {
                break;
            }
        }
        self.schedule(cur)
    }

    /// the fewest preemptions that still show it
    fn schedule(&mut self, mut cur: Spec) -> Spec {
        for i in 0..cur.incs.len() {
            let mut c = cur.clone();
            c.incs[i].sched.delay_den = 0;
            if self.exact(&c) {
                cur = c;
            }
            let mut c = cur.clone();
            c.incs[i].sched.alloc_den = 0;
            if self.exact(&c) {
                cur = c;
            }
            let mut c = cur.clone();
            c.incs[i].sched.edge_den = 0;
            if self.exact(&c) {
                cur = c;
            }
            let mut hi = {
                let r = run_spec(&cur, false);
                match r.incs.get(i) {
                    None => continue,
                    Some(x) => x.st.preempts,
                }
            };
            let mut lo = 0u64;
            while lo < hi && std::time::Instant::now() < self.deadline {
                let mid = (lo + hi) / 2;
                let mut c = cur.clone();
                c.incs[i].sched.budget = mid;
                if self.exact(&c) {
                    hi = mid;
                    cur = c;
                } else {
                    lo = mid + 1;
                }
            }
        }
        cur
    }
    fn exact(&mut self, c: &Spec) -> bool {
        if std::time::Instant::now() > self.deadline {
            return false;
        }
        self.tries += 1;
        let r = run_spec(c, false);
        r.incs.len() == c.incs.len() && r.viol.iter().any(|v| (self.classes)(v))
    }
}

fn shrink(op: &mut Op) -> bool {
    match op {
        Op::Build { ed, .. } | Op::Advance { ed, .. } if ed.len() > 1 => {
            let n = ed.len() / 2;
            ed.truncate(n);
            true
        }
        Op::Shared { parts, .. } if parts.len() > 1 => {
            parts.pop();
            true
        }
        Op::Shared { applied, .. } if !applied.is_empty() => {
            applied.pop();
            true
        }
        Op::Check { full, .. } if *full > 0 => {
            *full = 0;
            true
        }
        _ => false,
    }
}
fn size(s: &Spec) -> usize {
    serde_json::to_string(s).unwrap().len()
}
