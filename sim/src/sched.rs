//! Baton scheduler: real OS threads, exactly one of which runs at any time.
//!
//! Every intercepted libc call (and, with a per-run probability, every heap
//! allocation) is a point where the seeded scheduler may hand the baton to
//! another runnable thread. Time is virtual and jumps when everybody waits.

use crate::prng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Policy {
    /// at each point switch with probability 1/den, uniformly
    Random,
    /// random priorities with a few priority change points
    Pct,
    /// run until blocked, then next in order
    RoundRobin,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    pub policy: Policy,
    pub switch_den: u64,
    pub alloc_den: u64,
    /// a preemption point about every so many branches of the code under test (0: none)
    #[serde(default)]
    pub edge_den: u64,
    pub pct_points: u64,
    pub pct_span: u64,
    pub lifo_wake: bool,
    pub delay_den: u64,
    pub delay_max: u64,
    /// one in so many calls into the label store is slow (0: none)
    #[serde(default)]
    pub lag_den: u64,
    /// preemptive switches allowed; used by the minimiser
    pub budget: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex {
        addr: usize,
        bits: u32,
        deadline: u64,
        seq: u64,
    },
    Epoll {
        deadline: u64,
    },
    Sleep {
        deadline: u64,
    },
    Join {
        tid: usize,
    },
    Flock {
        ino: u64,
    },
    Exited,
}

pub struct Thr {
    pub st: St,
    /// stack pointer of the suspended thread
    ctx: usize,
    pub woken: bool,
    pub retval: *mut libc::c_void,
    pub dtors: Vec<(unsafe extern "C" fn(*mut u8), *mut u8)>,
    pub prio: i64,
    pub pthread: libc::pthread_t,
    pub epoch: u64,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Crashed,
    Deadlock(String),
    Livelock(String),
}

pub struct Sim {
    pub thr: Vec<Box<Thr>>,
    pub cur: usize,
    pub now: u64,
    pub rng: Rng,
    pub entropy: Rng,
    pub cfg: SchedCfg,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub edge_switches: u64,
    pub low_prio: i64,
    pub change_at: Vec<u64>,
    pub fseq: u64,
    pub hash: u64,
    pub sig: u64,
    pub trace: Option<Vec<String>>,
    pub max_steps: u64,
    pub on_stop: fn(Stop) -> !,
    pub stopping: bool,
    pub counts: BTreeMap<&'static str, u64>,
    /// one bit per runnable thread
    run: Vec<u64>,
    /// the address each thread waits on
    faddr: Vec<usize>,
    /// no waiting thread has an earlier deadline
    next_deadline: u64,
}

impl Sim {
    fn set(&mut self, i: usize, st: St) {
        let (w, b) = (i / 64, 1u64 << (i % 64));
        if st == St::Run {
            self.run[w] |= b;
        } else {
            self.run[w] &= !b;
        }
        self.faddr[i] = match st {
            St::Futex { addr, .. } => addr,
            _ => 0,
        };
        if let St::Futex { deadline, .. } | St::Epoll { deadline } | St::Sleep { deadline } = st {
            self.next_deadline = self.next_deadline.min(deadline);
        }
        self.thr[i].st = st;
    }
    fn wake(&mut self, i: usize, woken: bool) {
        self.set(i, St::Run);
        self.thr[i].woken = woken;
    }
    fn wake_if(&mut self, f: impl Fn(&St) -> bool) {
        for i in 0..self.thr.len() {
            if f(&self.thr[i].st) {
                self.wake(i, true);
            }
        }
    }
    fn add(&mut self, t: Box<Thr>) {
        let i = self.thr.len();
        self.thr.push(t);
        self.faddr.push(0);
        if i / 64 == self.run.len() {
            self.run.push(0);
        }
        self.set(i, St::Run);
    }
    fn runnable(&self) -> u32 {
        self.run.iter().map(|w| w.count_ones()).sum()
    }
    /// the k-th runnable thread
    fn nth(&self, mut k: u32) -> usize {
        for (i, w) in self.run.iter().enumerate() {
            let c = w.count_ones();
            if k < c {
                let mut w = *w;
                for _ in 0..k {
                    w &= w - 1;
                }
                return i * 64 + w.trailing_zeros() as usize;
            }
            k -= c;
        }
        unreachable!()
    }
    /// the next runnable thread after `i`, going around, `i` itself last
    fn after(&self, i: usize) -> usize {
        let (w0, b) = (i / 64, i % 64);
        let n = self.run.len();
        for k in 0..=n {
            let w = (w0 + k) % n;
            let mut x = self.run[w];
            if k == 0 {
                x &= (u64::MAX << b) << 1;
            } else if k == n {
                x &= !((u64::MAX << b) << 1);
            }
            if x != 0 {
                return w * 64 + x.trailing_zeros() as usize;
            }
        }
        unreachable!()
    }
}

pub const REAL_BASE: u64 = 1_700_000_000_000_000_000;
pub const NO_DEADLINE: u64 = u64::MAX;
const NOTID: usize = usize::MAX;

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut ACTIVE: bool = false;
static mut ALLOC_DEN: u64 = 0;
static mut EDGE_DEN: u64 = 0;
static mut EDGE_LEFT: u64 = 0;
/// live heap bytes, maintained while the simulation is active
pub static mut LIVE: i64 = 0;
pub static mut ALLOC_FAIL_AT: u64 = 0;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NOTID) };
    static NP: Cell<u32> = const { Cell::new(0) };
}

#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE && TID.get() != NOTID }
}
#[allow(static_mut_refs)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn me() -> usize {
    TID.get()
}

/// While alive, the current thread is not preempted.
pub struct NoPreempt(());
impl NoPreempt {
    #[inline]
    pub fn new() -> Self {
        NP.set(NP.get() + 1);
        NoPreempt(())
    }
}
impl Drop for NoPreempt {
    #[inline]
    fn drop(&mut self) {
        NP.set(NP.get() - 1);
    }
}

pub unsafe fn raw6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn futex_wait(w: &AtomicU32, val: u32) {
    raw6(
        libc::SYS_futex,
        w as *const _ as usize,
        (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
        val as usize,
        0,
        0,
        0,
    );
}
// Only one kernel thread ever runs simulated code. Every simulated thread is a
// real thread as far as the C library is concerned (its own stack and thread
// control block), but its kernel thread goes to sleep for good right at the
// start, and the first kernel thread switches stack and FS base instead.
std::arch::global_asm!(
    ".globl tsim_switch",
    "tsim_switch:", // (save: *mut usize, to: usize, fs: usize, have_wrfsbase: u64)
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp+4]",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "test rcx, rcx",
    "jz 2f",
    "wrfsbase rdx",
    "jmp 3f",
    "2:",
    "mov eax, 158", // arch_prctl(ARCH_SET_FS)
    "mov edi, 0x1002",
    "mov rsi, rdx",
    "syscall",
    "3:",
    "ldmxcsr [rsp]",
    "fldcw [rsp+4]",
    "add rsp, 8",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".globl tsim_park",
    "tsim_park:", // (save: *mut usize, ack: *mut u32)
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "sub rsp, 8",
    "stmxcsr [rsp]",
    "fnstcw [rsp+4]",
    "mov [rdi], rsp",
    "mov rdi, rsi",
    // the first thread may run on this stack as soon as it sees the mark
    "mov dword ptr [rdi], 1",
    "mov eax, 202", // futex(ack, FUTEX_WAKE|PRIVATE, 1)
    "mov esi, 129",
    "mov edx, 1",
    "xor r10d, r10d",
    "xor r8d, r8d",
    "xor r9d, r9d",
    "syscall",
    "4:",
    "mov eax, 34", // pause()
    "syscall",
    "jmp 4b",
);
extern "C" {
    fn tsim_switch(save: *mut usize, to: usize, fs: usize, fast: u64);
    fn tsim_park(save: *mut usize, ack: *mut u32);
}
static mut FAST_FS: u64 = 0;

unsafe fn wait_ack(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        futex_wait(w, 0);
    }
}

fn new_thr(prio: i64) -> Box<Thr> {
    Box::new(Thr {
        st: St::Run,
        ctx: 0,
        woken: false,
        retval: std::ptr::null_mut(),
        dtors: Vec::new(),
        prio,
        pthread: 0,
        epoch: 0,
    })
}

/// Start the simulation; the calling thread becomes thread 0.
pub fn start(cfg: SchedCfg, entropy: u64, trace: bool, on_stop: fn(Stop) -> !) {
    unsafe {
        let mut rng = Rng::new(cfg.seed);
        let mut change_at = Vec::new();
        if cfg.policy == Policy::Pct {
            for _ in 0..cfg.pct_points {
                change_at.push(rng.below(cfg.pct_span.max(1)));
            }
            change_at.sort();
            change_at.reverse();
        }
        let p = (rng.next() >> 2) as i64;
        ALLOC_DEN = cfg.alloc_den;
        EDGE_DEN = if cfg.policy == Policy::RoundRobin { 0 } else { cfg.edge_den };
        EDGE_LEFT = EDGE_DEN;
        let s = Box::new(Sim {
            thr: vec![],
            run: vec![],
            faddr: vec![],
            next_deadline: NO_DEADLINE,
            cur: 0,
            now: 1_000_000_000,
            rng,
            entropy: Rng::new(entropy),
            cfg,
            steps: 0,
            switches: 0,
            preempts: 0,
            edge_switches: 0,
            low_prio: 0,
            change_at,
            fseq: 0,
            hash: 0xcbf29ce484222325,
            sig: 0xcbf29ce484222325,
            trace: if trace { Some(Vec::new()) } else { None },
            max_steps: 6_000_000,
            on_stop,
            stopping: false,
            counts: BTreeMap::new(),
        });
        SIM = Box::into_raw(s);
        sim().add(new_thr(p));
        sim().thr[0].pthread = libc::pthread_self();
        FAST_FS = libc::getauxval(libc::AT_HWCAP2) >> 1 & 1;
        if std::env::var("TSIM_SLOWFS").is_ok() {
            FAST_FS = 0;
        }
        LIVE = 0;
        TID.set(0);
        ACTIVE = true;
    }
}

/// Stop intercepting (the caller keeps the baton for good).
pub fn freeze() {
    unsafe {
        if !SIM.is_null() {
            sim().stopping = true;
        }
        ACTIVE = false;
    }
}

#[inline]
fn fnv(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
}

/// Record an event in the log hash (and in the trace when one is kept).
pub fn event(kind: &'static str, a: u64, b: u64, text: impl FnOnce() -> String) {
    let _g = NoPreempt::new();
    let s = sim();
    let t = TID.get() as u64;
    fnv(&mut s.hash, t);
    for c in kind.bytes() {
        fnv(&mut s.hash, c as u64);
    }
    fnv(&mut s.hash, a);
    fnv(&mut s.hash, b);
    fnv(&mut s.sig, t);
    for c in kind.bytes() {
        fnv(&mut s.sig, c as u64);
    }
    if s.trace.is_some() {
        // the trace lives outside the arena: recording it changes nothing
        unsafe {
            let (live, on, edge) = (LIVE, ARENA_ON, EDGE_LEFT);
            ARENA_ON = false;
            let line = format!("{:>7} t{:<3} {:>12}ns {} {}", s.steps, t, s.now - 1_000_000_000, kind, text());
            s.trace.as_mut().unwrap().push(line);
            ARENA_ON = on;
            LIVE = live;
            EDGE_LEFT = edge;
        }
    }
}
pub fn hash_str(x: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn count(k: &'static str, n: u64) {
    let _g = NoPreempt::new();
    *sim().counts.entry(k).or_insert(0) += n;
}

fn expire(s: &mut Sim) {
    let now = s.now;
    s.next_deadline = NO_DEADLINE;
    for i in 0..s.thr.len() {
        let d = match s.thr[i].st {
            St::Futex { deadline, .. } | St::Epoll { deadline } | St::Sleep { deadline } => deadline,
            _ => continue,
        };
        if d <= now {
            s.wake(i, false);
        } else {
            s.next_deadline = s.next_deadline.min(d);
        }
    }
}
fn min_deadline(s: &Sim) -> u64 {
    s.thr
        .iter()
        .map(|t| match t.st {
            St::Futex { deadline, .. } | St::Epoll { deadline } | St::Sleep { deadline } => deadline,
            _ => NO_DEADLINE,
        })
        .min()
        .unwrap_or(NO_DEADLINE)
}

pub fn describe() -> String {
    let s = sim();
    let mut o = String::new();
    for (i, t) in s.thr.iter().enumerate() {
        if t.st != St::Exited {
            let d = match t.st {
                St::Futex { deadline, .. } => {
                    if deadline == NO_DEADLINE {
                        "futex".to_string()
                    } else {
                        "futex(timed)".to_string()
                    }
                }
                St::Epoll { .. } => "epoll".into(),
                St::Flock { ino } => format!("flock(inode {ino})"),
                St::Join { tid } => format!("join(t{tid})"),
                St::Sleep { .. } => "sleep".into(),
                St::Run => "runnable".into(),
                St::Exited => "exited".into(),
            };
            o.push_str(&format!("t{i}:{d} "));
        }
    }
    o
}

fn stop(st: Stop) -> ! {
    let s = sim();
    let f = s.on_stop;
    freeze();
    f(st)
}
pub fn stop_now(st: Stop) -> ! {
    stop(st)
}

fn choose(s: &mut Sim, me: usize, exclude_me: bool) -> Option<usize> {
    let myself = s.thr[me].st == St::Run;
    let (w, b) = (me / 64, 1u64 << (me % 64));
    if exclude_me && myself {
        s.run[w] &= !b;
    }
    let r = choose_any(s, me);
    if exclude_me && myself {
        s.run[w] |= b;
        return Some(r.unwrap_or(me));
    }
    r
}
fn choose_any(s: &mut Sim, me: usize) -> Option<usize> {
    let cnt = s.runnable();
    if cnt == 0 {
        return None;
    }
    let over = s.preempts >= s.cfg.budget;
    let fair = s.steps > 400_000;
    Some(match s.cfg.policy {
        _ if (over || s.cfg.policy == Policy::RoundRobin) && !fair => s.after(me),
        Policy::Pct if !fair => {
            let mut best = (i64::MIN, 0);
            for (k, w) in s.run.iter().enumerate() {
                let mut w = *w;
                while w != 0 {
                    let i = k * 64 + w.trailing_zeros() as usize;
                    w &= w - 1;
                    if s.thr[i].prio >= best.0 {
                        best = (s.thr[i].prio, i);
                    }
                }
            }
            best.1
        }
        _ => {
            let k = s.rng.below(cnt as u64);
            s.nth(k as u32)
        }
    })
}

/// Hand over the baton. On return this thread runs again.
unsafe fn reschedule(exclude_me: bool) {
    let s = sim();
    let my = TID.get();
    loop {
        if s.next_deadline <= s.now {
            expire(s);
        }
        match choose(s, my, exclude_me) {
            Some(n) => {
                if n == my {
                    return;
                }
                s.switches += 1;
                fnv(&mut s.hash, 0x5157 + n as u64);
                fnv(&mut s.sig, 0x5157 + n as u64);
                s.cur = n;
                let save: *mut usize = &mut s.thr[my].ctx;
                tsim_switch(save, s.thr[n].ctx, s.thr[n].pthread as usize, FAST_FS);
                return;
            }
            None => {
                let d = min_deadline(s);
                if d == NO_DEADLINE {
                    let np = NoPreempt::new();
                    let text = describe();
                    std::mem::forget(np);
                    stop(Stop::Deadlock(text));
                }
                s.now = d;
            }
        }
    }
}

unsafe fn park_forever() -> ! {
    static W: AtomicU32 = AtomicU32::new(0);
    loop {
        futex_wait(&W, 0);
    }
}

/// Block the current thread in state `st` until something makes it runnable.
/// Returns whether it was woken (false: deadline passed).
pub fn block(st: St) -> bool {
    let s = sim();
    let my = TID.get();
    s.thr[my].woken = false;
    s.set(my, st);
    step(s);
    unsafe { reschedule(false) };
    s.thr[my].woken
}

#[inline]
fn step(s: &mut Sim) {
    s.steps += 1;
    s.now += 100;
    if s.steps > s.max_steps && !s.stopping {
        let np = NoPreempt::new();
        let text = describe();
        std::mem::forget(np);
        stop(Stop::Livelock(text));
    }
}

/// A point at which the scheduler may preempt the current thread.
#[inline]
pub fn point() {
    if !active() || NP.get() > 0 {
        return;
    }
    point_slow()
}
fn point_slow() {
    let s = sim();
    step(s);
    if s.preempts >= s.cfg.budget {
        return;
    }
    let go = match s.cfg.policy {
        Policy::RoundRobin => false,
        Policy::Random => s.rng.one_in(s.cfg.switch_den),
        Policy::Pct => {
            let mut hit = false;
            while let Some(&x) = s.change_at.last() {
                if x <= s.steps {
                    s.change_at.pop();
                    hit = true;
                } else {
                    break;
                }
            }
            if hit {
                s.low_prio -= 1;
                let p = s.low_prio;
                s.thr[TID.get()].prio = p;
            }
            true
        }
    };
    if go {
        let before = s.switches;
        unsafe { reschedule(false) };
        if sim().switches != before {
            sim().preempts += 1;
        }
    }
}

#[inline]
fn alloc_point() {
    unsafe {
        if ALLOC_DEN == 0 || !ACTIVE {
            return;
        }
        if TID.get() == NOTID || NP.get() > 0 {
            return;
        }
        let s = sim();
        if s.rng.one_in(ALLOC_DEN) {
            point_slow();
        }
    }
}

/// Called on every edge of the control flow of the code under test (see wrap.sh).
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE {
        return;
    }
    let g = *guard as usize;
    if g < EDGES {
        *EDGE_MAP.add(g) = 1;
    }
    if EDGE_DEN == 0 {
        return;
    }
    EDGE_LEFT = EDGE_LEFT.wrapping_sub(1);
    if EDGE_LEFT as i64 <= 0 && TID.get() != NOTID && NP.get() == 0 {
        edge_slow();
    }
}

/// Which edges have been taken, in this process and those forked from it.
pub static mut EDGE_MAP: *mut u8 = std::ptr::null_mut();
pub static mut EDGES: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    const MAX: usize = 1 << 20;
    if start == stop || *start != 0 {
        return;
    }
    if EDGE_MAP.is_null() {
        let p = libc::syscall(
            libc::SYS_mmap,
            0usize,
            MAX,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1i32,
            0usize,
        );
        EDGE_MAP = p as *mut u8;
    }
    let mut g = start;
    while g < stop && EDGES < MAX {
        *g = EDGES as u32;
        EDGES += 1;
        g = g.add(1);
    }
    while g < stop {
        *g = MAX as u32;
        g = g.add(1);
    }
}

pub fn edges() -> usize {
    unsafe { EDGES }
}
pub fn edges_taken() -> std::collections::BTreeSet<u32> {
    unsafe { (0..EDGES).filter(|i| *EDGE_MAP.add(*i) != 0).map(|i| i as u32).collect() }
}

#[cold]
unsafe fn edge_slow() {
    let s = sim();
    EDGE_LEFT = 1 + s.rng.below(2 * EDGE_DEN);
    if s.preempts >= s.cfg.budget {
        return;
    }
    let go = match s.cfg.policy {
        Policy::RoundRobin => false,
        Policy::Random => true,
        Policy::Pct => {
            let hit = s.rng.one_in(16);
            if hit {
                s.low_prio -= 1;
                let p = s.low_prio;
                s.thr[TID.get()].prio = p;
            }
            hit
        }
    };
    if go {
        let before = s.switches;
        reschedule(false);
        if sim().switches != before {
            sim().preempts += 1;
            sim().edge_switches += 1;
        }
    }
}

/// sched_yield and friends: prefer somebody else.
pub fn yield_now() {
    if NP.get() > 0 {
        return;
    }
    let s = sim();
    step(s);
    if s.cfg.policy == Policy::Pct {
        s.low_prio -= 1;
        let p = s.low_prio;
        s.thr[TID.get()].prio = p;
    }
    unsafe { reschedule(true) };
}

pub fn sleep_until(deadline: u64) {
    block(St::Sleep { deadline });
}

pub fn wake_flock(ino: u64) {
    sim().wake_if(|st| *st == St::Flock { ino });
}
pub fn wake_epoll() {
    sim().wake_if(|st| matches!(st, St::Epoll { .. }));
}

/// futex emulation over the virtual scheduler. Returns result or -errno.
pub unsafe fn futex(addr: *const u32, op: i32, val: u32, timeout: *const libc::timespec, bits: u32) -> i64 {
    let s = sim();
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            point();
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                return -(libc::EAGAIN as i64);
            }
            let deadline = if timeout.is_null() {
                NO_DEADLINE
            } else {
                let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    s.now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    t.saturating_sub(REAL_BASE)
                } else {
                    t
                }
            };
            s.fseq += 1;
            let seq = s.fseq;
            let b = if cmd == libc::FUTEX_WAIT { u32::MAX } else { bits };
            if block(St::Futex {
                addr: addr as usize,
                bits: b,
                deadline,
                seq,
            }) {
                0
            } else {
                -(libc::ETIMEDOUT as i64)
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let b = if cmd == libc::FUTEX_WAKE { u32::MAX } else { bits };
            let mut w: Vec<(u64, usize)> = Vec::new();
            {
                let _g = NoPreempt::new();
                for (i, a) in s.faddr.iter().enumerate() {
                    if *a == addr as usize {
                        if let St::Futex { bits: tb, seq, .. } = s.thr[i].st {
                            if tb & b != 0 {
                                w.push((seq, i));
                            }
                        }
                    }
                }
                w.sort();
                if s.cfg.lifo_wake {
                    w.reverse();
                }
                w.truncate(val as usize);
                for (_, i) in &w {
                    s.wake(*i, true);
                }
            }
            let n = w.len() as i64;
            {
                let _g = NoPreempt::new();
                drop(w);
            }
            point();
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

// ---------------------------------------------------------------- threads

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct StartArg {
    f: StartFn,
    arg: *mut libc::c_void,
    tid: usize,
    ack: AtomicU32,
}

pub type PthreadCreate = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    StartFn,
    *mut libc::c_void,
) -> libc::c_int;

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let a = p as *const StartArg;
        let (f, arg, tid) = ((*a).f, (*a).arg, (*a).tid);
        TID.set(tid);
        // no signal handler may ever run on this kernel thread
        let all = u64::MAX;
        raw6(libc::SYS_rt_sigprocmask, 0, &all as *const u64 as usize, 0, 8, 0, 0);
        let save: *mut usize = &mut sim().thr[tid].ctx;
        let ack = std::ptr::addr_of!((*a).ack) as *mut u32;
        tsim_park(save, ack); // from here on the StartArg must not be touched
        let ret = f(arg);
        // thread-local destructors run while the baton is held
        loop {
            let d = sim().thr[tid].dtors.pop();
            match d {
                Some((f, o)) => f(o),
                None => break,
            }
        }
        let s = sim();
        s.thr[tid].retval = ret;
        s.set(tid, St::Exited);
        s.wake_if(|st| *st == St::Join { tid });
        reschedule(false);
        park_forever()
    }
}

pub unsafe fn thread_create(
    real: PthreadCreate,
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: StartFn,
    arg: *mut libc::c_void,
) -> libc::c_int {
    let r;
    {
        let _g = NoPreempt::new();
        let s = sim();
        let tid = s.thr.len();
        let prio = (s.rng.next() >> 2) as i64;
        s.add(new_thr(prio));
        let a = Box::new(StartArg {
            f,
            arg,
            tid,
            ack: AtomicU32::new(0),
        });
        let p = Box::into_raw(a);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        let mut use_attr = attr;
        if ARENA_ON && tid < MAX_STACKS {
            // stacks at addresses of our choosing, too
            libc::pthread_attr_init(&mut at);
            libc::pthread_attr_setstack(&mut at, (STACKS + tid * STACK_LEN) as *mut libc::c_void, STACK_LEN);
            use_attr = &at;
        }
        r = real(out, use_attr, trampoline, p as *mut libc::c_void);
        if r != 0 {
            s.set(tid, St::Exited);
            drop(Box::from_raw(p));
            return r;
        }
        wait_ack(&(*p).ack);
        s.thr[tid].pthread = *out;
        drop(Box::from_raw(p));
        event("spawn", tid as u64, 0, String::new);
    }
    point();
    r
}

pub unsafe fn thread_join(t: libc::pthread_t, ret: *mut *mut libc::c_void) -> libc::c_int {
    let s = sim();
    let tid = match s.thr.iter().position(|x| x.pthread == t) {
        Some(i) => i,
        None => return libc::ESRCH,
    };
    while s.thr[tid].st != St::Exited {
        block(St::Join { tid });
    }
    if !ret.is_null() {
        *ret = s.thr[tid].retval;
    }
    0
}

pub unsafe fn add_dtor(f: unsafe extern "C" fn(*mut u8), o: *mut u8) {
    let _g = NoPreempt::new();
    sim().thr[TID.get()].dtors.push((f, o));
}

// ---------------------------------------------------------------- allocator

/// In a simulated process all heap memory comes from an arena at a fixed
/// address, so that addresses (parking_lot hashes them) do not depend on what
/// the driver did before. Only the holder of the baton allocates.
pub struct Alloc;

const ARENA: usize = 0x6000_0000_0000;
const ARENA_LEN: usize = 16 << 30;
const STACKS: usize = 0x6800_0000_0000;
const STACK_LEN: usize = 2 << 20;
const MAX_STACKS: usize = 1024;
static mut ARENA_ON: bool = false;
static mut BUMP: usize = ARENA;
static mut FREE: [usize; 160] = [0; 160];

pub unsafe fn arena_start() {
    for (a, l) in [(ARENA, ARENA_LEN), (STACKS, STACK_LEN * MAX_STACKS)] {
        let p = libc::mmap(
            a as *mut libc::c_void,
            l,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == a, "arena");
    }
    ARENA_ON = true;
}

/// (class, size): four classes per power of two
#[inline]
fn class(n: usize) -> (usize, usize) {
    if n <= 64 {
        let k = (n.max(1) + 15) / 16;
        return (k - 1, k * 16);
    }
    let b = (n - 1).ilog2() as usize; // 2^b <= n-1
    let q = 1usize << (b - 2);
    let k = (n - (1 << b) + q - 1) / q; // 1..=4
    (4 + (b - 6) * 4 + k - 1, (1 << b) + k * q)
}
#[inline]
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let (mut c, mut sz) = class(l.size().max(l.align()));
    if l.align() > 16 {
        // only powers of two are that well aligned
        let n = l.size().max(l.align()).next_power_of_two();
        let x = class(n);
        c = 140 + (n.ilog2() as usize).min(19);
        sz = x.1.max(n);
        if n.ilog2() > 19 {
            c = usize::MAX;
        }
    }
    if c != usize::MAX && FREE[c] != 0 {
        let p = FREE[c];
        FREE[c] = *(p as *const usize);
        return p as *mut u8;
    }
    let al = l.align().max(16);
    let p = (BUMP + al - 1) & !(al - 1);
    BUMP = p + sz;
    if BUMP > ARENA + ARENA_LEN {
        return std::ptr::null_mut();
    }
    p as *mut u8
}
#[inline]
unsafe fn arena_free(p: *mut u8, l: Layout) {
    let c = if l.align() > 16 {
        let n = l.size().max(l.align()).next_power_of_two();
        if n.ilog2() > 19 {
            return;
        }
        140 + n.ilog2() as usize
    } else {
        class(l.size().max(l.align())).0
    };
    *(p as *mut usize) = FREE[c];
    FREE[c] = p as usize;
}
#[inline]
fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(ARENA) < ARENA_LEN
}

unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        LIVE += l.size() as i64;
        if ARENA_ON {
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as i64;
        if in_arena(p) {
            arena_free(p, l);
        } else {
            System.dealloc(p, l);
        }
        alloc_point();
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        LIVE += l.size() as i64;
        if ARENA_ON {
            let p = arena_alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        LIVE += n as i64 - l.size() as i64;
        if in_arena(p) || ARENA_ON {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            if in_arena(p) && l.align() <= 16 && class(l.size()).1 == class(n).1 {
                return p;
            }
            let q = if ARENA_ON { arena_alloc(nl) } else { System.alloc(nl) };
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                if in_arena(p) {
                    arena_free(p, l);
                } else {
                    System.dealloc(p, l);
                }
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}
