//! Workload and fault generation: one profile per property.

use crate::model::{gen_edits, wide_edits, Edit};
use crate::ops::*;
use crate::prng::{mix, Rng};
use crate::sched::{Policy, SchedCfg};
use crate::shim::{self, Fault, FaultKind, Io};
use crate::vfs::CrashModel;
use std::collections::BTreeMap;

/// How often each kind of fault was put at each site.
pub type Cov = BTreeMap<(u32, u8), u32>;

#[derive(Clone)]
pub struct Profile {
    pub prop: &'static str,
    pub accept: &'static [&'static str],
    /// weights of memory, raw archive, LRU archive, directory
    pub kinds: [u32; 4],
    pub kinds2: [u32; 4],
    /// per cent of runs with the caching label store
    pub cached: u64,
    /// per cent of runs through store::sync
    pub sync: u64,
    pub ops: &'static [(&'static str, u32)],
    pub clients: (u64, u64),
    pub steps: (u64, u64),
    pub graphs: u64,
    /// set-up: length of the first chain of layers
    pub chain: (u64, u64),
    pub setup_rollups: u64,
    pub setup_packs: u64,
    /// weights of variant kinds: crash, errors, short/stall, none (other schedule)
    pub faults: [u32; 4],
    /// weights of kill, lose-unsynced, random
    pub models: [u32; 3],
    /// per cent of steps that are abandoned
    pub cancel: u64,
    pub audit: u8,
    pub depth: (u64, u64),
    pub variants: u64,
    /// per cent of runs with layers of 50-400 KB
    pub big: u64,
    /// how strange the vocabulary is (1 in n), 0 never
    pub odd: u64,
    pub edits: (u64, u64),
    pub lru: &'static [u32],
    /// per cent of incarnations whose clients play one of `motifs`
    pub motif: u64,
    pub motifs: &'static [(&'static str, u32)],
}

fn lru_mb(p: &Profile, r: &mut Rng) -> u32 {
    *r.pick(p.lru)
}
fn kind(p: &Profile, w: &[u32; 4], r: &mut Rng) -> Kind {
    match r.weighted(w) {
        0 => Kind::Mem,
        1 => Kind::Raw,
        2 => Kind::Lru(lru_mb(p, r)),
        _ => Kind::Dir,
    }
}

pub struct Swarm {
    w: Vec<(usize, u32)>,
    big: bool,
    /// now and then a layer of a thousand triples
    wide: bool,
    rm: u64,
    graphs: u64,
    cancel: u64,
}

pub fn sched_cfg(r: &mut Rng) -> SchedCfg {
    let policy = match r.below(10) {
        0 => Policy::RoundRobin,
        1..=3 => Policy::Pct,
        _ => Policy::Random,
    };
    SchedCfg {
        seed: r.next() >> 12,
        policy,
        switch_den: *r.pick(&[2, 3, 4, 8, 16, 50]),
        alloc_den: *r.pick(&[0, 0, 0, 15, 60, 300]),
        edge_den: *r.pick(&[0, 0, 20, 100, 500, 3000]),
        pct_points: r.range(1, 10),
        pct_span: *r.pick(&[2000, 6000, 15000]),
        lifo_wake: r.one_in(3),
        delay_den: *r.pick(&[0, 0, 10, 40, 200]),
        delay_max: *r.pick(&[5_000, 100_000, 2_000_000, 100_000_000]),
        lag_den: *r.pick(&[0, 2, 2, 5]),
        budget: u64::MAX,
    }
}

/// The fixed part of a run, and a swarm choice of what its clients do.
pub fn new_spec(p: &Profile, seed: u64) -> (Spec, Swarm, Rng) {
    let mut r = Rng::new(mix(seed, 0xabc));
    let sync = r.chance(p.sync, 100);
    let k0 = kind(p, &p.kinds, &mut r);
    // for development: one kind of store only
    let k0 = match std::env::var("TSIM_KIND").as_deref() {
        Ok("mem") => Kind::Mem,
        Ok("dir") => Kind::Dir,
        Ok("raw") => Kind::Raw,
        Ok("lru") => Kind::Lru(1),
        _ => k0,
    };
    let k1 = kind(p, &p.kinds2, &mut r);
    let labels = if r.chance(p.cached, 100) { Labels::Cached } else { Labels::Plain };
    let mut w = vec![];
    for (i, (_, x)) in p.ops.iter().enumerate() {
        let x = match r.below(10) {
            0 | 1 => 0,
            2 => x * 4,
            3 => x * 2,
            _ => *x,
        };
        if x > 0 {
            w.push((i, x));
        }
    }
    if w.is_empty() {
        w = p.ops.iter().enumerate().map(|(i, x)| (i, x.1)).collect();
    }
    let spec = Spec {
        profile: p.prop.to_string(),
        seed,
        kinds: [k0, k1],
        labels,
        handles: *r.pick(&[1, 1, 2, 2, 3]),
        workers: *r.pick(&[0, 1, 2, 2, 3]),
        blocking: *r.pick(&[2, 4, 8, 512]),
        rayon: *r.pick(&[1, 2, 2, 3]),
        sync,
        audit: p.audit,
        probe: std::env::var("TSIM_PROBE").is_ok(),
        incs: vec![],
    };
    let sw = Swarm {
        w,
        big: r.chance(p.big, 100),
        wide: matches!(p.prop, "P01" | "P02" | "P08" | "P09" | "P10" | "P11" | "P14" | "P15" | "P17" | "P18") && (r.one_in(25) || std::env::var("TSIM_WIDE").is_ok()),
        rm: *r.pick(&[0, 20, 40, 60]),
        graphs: r.range(1, p.graphs.max(1)),
        cancel: if r.one_in(3) { 0 } else { p.cancel },
    };
    (spec, sw, r)
}

fn edits(p: &Profile, sw: &Swarm, r: &mut Rng, rm: u64) -> Vec<Edit> {
    if sw.wide && r.one_in(4) {
        let n = r.range(200, 1400);
        return wide_edits(r, n, rm / 2);
    }
    if sw.big && r.one_in(2) {
        let n = r.range(20, 200);
        let mut v = gen_edits(r, n, 0, true, 0);
        v.extend(gen_edits(r, 3, p.odd, false, rm));
        return v;
    }
    let n = if r.one_in(12) { 0 } else { r.range(p.edits.0, p.edits.1) };
    gen_edits(r, n, p.odd, false, rm)
}

fn lsel(r: &mut Rng) -> u32 {
    // biased to recent layers
    match r.below(5) {
        0 | 1 => 0,
        2 => r.below(3) as u32,
        _ => r.below(40) as u32,
    }
}
fn psel(r: &mut Rng) -> Option<u32> {
    if r.one_in(5) {
        None
    } else {
        Some(lsel(r))
    }
}

fn one(p: &Profile, sw: &Swarm, name: &str, r: &mut Rng) -> Op {
    let g = r.below(sw.graphs) as u32;
    let g = match name {
        // names that take some care
        "create" | "open" | "delete" | "set" | "head" | "advance" if p.graphs > 3 && r.one_in(5) => {
            *r.pick(&[5, 6, 8, 9, 10, 11, 12, 13])
        }
        _ => g,
    };
    match name {
        "build" => Op::Build {
            parent: psel(r),
            ed: edits(p, sw, r, sw.rm),
            how: match r.below(8) {
                0 => 2,
                1 | 2 => 1,
                _ => 0,
            },
        },
        "check" => Op::Check {
            l: lsel(r),
            full: r.below(3) as u8,
        },
        "load" => Op::Load {
            l: lsel(r),
            n: r.range(2, 4) as u32,
        },
        "hold" => Op::Hold { l: lsel(r) },
        "checkheld" => Op::CheckHeld {
            i: r.below(8) as u32,
            full: r.below(4) as u8,
        },
        "release" => Op::Release,
        "create" => Op::Create { g },
        "open" => Op::Open { g },
        "head" => Op::Head {
            g,
            full: r.below(2) as u8,
        },
        "set" => Op::SetHead { g, l: lsel(r) },
        "force" => Op::Force { g, l: lsel(r) },
        "forcev" => Op::ForceV {
            g,
            l: lsel(r),
            d: *r.pick(&[0, 0, 0, 0, 1, -1]),
        },
        "clear" => Op::Clear { g },
        "delete" => Op::Delete {
            g,
            how: r.below(2) as u8,
        },
        "labels" => Op::Labels,
        "advance" => Op::Advance {
            g,
            ed: edits(p, sw, r, sw.rm),
        },
        "rollup" => Op::Rollup { l: lsel(r), keep: r.one_in(4) },
        "rollup_upto" => Op::RollupUpto {
            l: lsel(r),
            up: r.below(6) as u32,
            keep: r.one_in(4),
        },
        "imprecise" => Op::Imprecise {
            l: lsel(r),
            up: r.below(6) as u32,
        },
        "squash" => Op::Squash { l: lsel(r) },
        "squash_upto" => Op::SquashUpto {
            l: lsel(r),
            up: r.below(6) as u32,
        },
        "merge" => Op::Merge {
            ls: (0..r.range(1, 4)).map(|_| r.below(20) as u32).collect(),
        },
        "export" => Op::Export {
            ls: (0..r.range(1, 2)).map(|_| lsel(r)).collect(),
        },
        "import" => Op::Import {
            p: r.below(3) as u32,
            pick: (0..r.below(3)).map(|_| r.below(20) as u32).collect(),
            unknown: if r.one_in(3) { r.range(1, 2) as u32 } else { 0 },
        },
        "shared" => {
            let n = r.range(1, 4);
            Op::Shared {
                parent: psel(r),
                parts: (0..n)
                    .map(|_| {
                        let k = r.range(1, 8);
                        gen_edits(r, k, p.odd, false, sw.rm)
                    })
                    .collect(),
                applied: if r.one_in(2) {
                    (0..r.range(1, 2)).map(|_| (lsel(r), r.one_in(3))).collect()
                } else {
                    vec![]
                },
                commits: r.range(1, 3) as u32,
            }
        }
        "delta" => Op::Delta {
            parent: psel(r),
            l: lsel(r),
        },
        "diff" => Op::Diff {
            parent: psel(r),
            l: lsel(r),
        },
        "list" => Op::List,
        "absent" => Op::LookupAbsent,
        "pending" => Op::LookupPending,
        "reopen" => Op::Reopen,
        "sleep" => Op::Sleep {
            us: *r.pick(&[1, 100, 10_000, 1_000_000]),
        },
        x => panic!("no operation {x}"),
    }
}

fn store_of(p: &Profile, op: &Op, r: &mut Rng) -> u8 {
    let second = p.ops.iter().any(|o| o.0 == "import");
    match op {
        Op::Import { .. } => {
            if r.one_in(4) {
                0
            } else {
                1
            }
        }
        Op::Export { .. } => r.one_in(5) as u8,
        Op::Check { .. } | Op::Load { .. } | Op::Hold { .. } | Op::List | Op::Build { .. } | Op::LookupPending if second => {
            r.one_in(3) as u8
        }
        Op::Rollup { .. } | Op::RollupUpto { .. } | Op::Imprecise { .. } | Op::Squash { .. } | Op::SquashUpto { .. } if second => {
            r.one_in(4) as u8
        }
        _ => 0,
    }
}

/// Clients that get in each other's way on purpose: (steps that go before, clients).
fn motif(p: &Profile, sw: &Swarm, name: &str, r: &mut Rng) -> (Vec<Step>, Vec<Vec<Step>>) {
    let g = r.below(sw.graphs) as u32;
    let same = r.below(4) as u32;
    let spread = r.one_in(3);
    let st = |h: u32, op: Op| Step { h, st: 0, op, cancel: None };
    let h = |r: &mut Rng| if spread { r.below(4) as u32 } else { same };
    let few = |r: &mut Rng| gen_edits(r, 3, 0, false, 20);
    match name {
        // a label goes away and comes back, or changes its version, while it is set
        "aba" => {
            let mut pre = vec![st(0, Op::Create { g })];
            let family = r.one_in(2);
            if family {
                // two children of one layer, which is the head
                for parent in [None, Some(0), Some(1)] {
                    pre.push(st(0, Op::Build { parent, ed: few(r), how: 0 }));
                }
                pre.push(st(0, Op::SetHead { g, l: 2 }));
            } else if r.one_in(2) {
                pre.push(st(0, Op::SetHead { g, l: lsel(r) }));
            }
            let lsel = |r: &mut Rng| if family { r.below(3) as u32 } else { lsel(r) };
            let setter = |r: &mut Rng| {
                let n = r.range(1, 3);
                (0..n)
                    .map(|_| {
                        let op = match r.below(5) {
                            0 => Op::Force { g, l: lsel(r) },
                            1 => Op::ForceV { g, l: lsel(r), d: *r.pick(&[0, 0, 1, -1]) },
                            2 => Op::Advance { g, ed: few(r) },
                            _ => Op::SetHead { g, l: lsel(r) },
                        };
                        st(h(r), op)
                    })
                    .collect::<Vec<_>>()
            };
            let churn = |r: &mut Rng| {
                let mut v = vec![];
                for _ in 0..r.range(1, 2) {
                    if r.one_in(4) {
                        v.push(st(h(r), Op::ForceV { g, l: lsel(r), d: *r.pick(&[0, 1, -1]) }));
                    } else {
                        v.push(st(h(r), Op::Delete { g, how: r.below(2) as u8 }));
                        v.push(st(h(r), Op::Create { g }));
                    }
                    if !r.one_in(4) {
                        v.push(st(h(r), Op::SetHead { g, l: lsel(r) }));
                    }
                }
                v
            };
            let mut cl = vec![setter(r), churn(r)];
            if r.one_in(2) {
                cl.push(setter(r));
            }
            if r.one_in(3) {
                cl.push(churn(r));
            }
            if r.one_in(2) {
                cl.push((0..r.range(1, 3)).map(|_| st(h(r), Op::Head { g, full: 0 })).collect());
            }
            (pre, cl)
        }
        // several clients import the same pack
        "imports" => {
            let mut pre = vec![];
            for _ in 0..r.range(1, 3) {
                pre.push(st(0, Op::Build { parent: if pre.is_empty() { None } else { Some(0) }, ed: few(r), how: 0 }));
            }
            pre.push(st(0, Op::Export { ls: vec![0] }));
            let n = r.range(2, 3);
            let mut cl = vec![];
            for _ in 0..n {
                let mut v = vec![];
                for _ in 0..r.range(1, 2) {
                    v.push(Step {
                        h: h(r),
                        st: 1,
                        op: Op::Import { p: 0, pick: vec![], unknown: 0 },
                        cancel: if r.one_in(8) { Some(r.range(1, 12) as u32) } else { None },
                    });
                    if r.one_in(3) {
                        v.push(Step { h: h(r), st: 1, op: Op::Load { l: lsel(r), n: 2 }, cancel: None });
                    }
                }
                cl.push(v);
            }
            (pre, cl)
        }
        // one layer, rolled up in several ways while it is loaded and read
        "rollups" => {
            let l = r.below(3) as u32;
            let roll = |r: &mut Rng| match r.below(3) {
                0 => Op::Rollup { l, keep: r.one_in(4) },
                1 => Op::RollupUpto { l, up: r.below(5) as u32, keep: r.one_in(4) },
                _ => Op::Imprecise { l, up: r.below(5) as u32 },
            };
            let n = r.range(1, 3);
            let mut cl: Vec<Vec<Step>> = (0..n).map(|_| (0..r.range(1, 3)).map(|_| st(h(r), roll(r))).collect()).collect();
            for _ in 0..r.range(1, 2) {
                let mut v = vec![];
                for _ in 0..r.range(1, 4) {
                    let op = match r.below(5) {
                        0 => Op::Reopen,
                        1 => Op::Load { l, n: 2 },
                        2 => Op::Build { parent: Some(l), ed: few(r), how: 0 },
                        _ => Op::Check { l, full: r.below(3) as u8 },
                    };
                    v.push(st(h(r), op));
                }
                cl.push(v);
            }
            (vec![], cl)
        }
        // base layers of several clients, merged, squashed and looked at
        "merges" => {
            let mut pre = vec![];
            let n = r.range(1, 3);
            for _ in 0..n {
                let ed = if r.one_in(3) { gen_edits(r, 40, 0, false, 10) } else { few(r) };
                pre.push(st(0, Op::Build { parent: None, ed, how: r.below(2) as u8 }));
            }
            let mut cl = vec![];
            for _ in 0..r.range(1, 2) {
                let mut v = vec![];
                for _ in 0..r.range(1, 3) {
                    let op = match r.below(6) {
                        0 => Op::Squash { l: lsel(r) },
                        1 => Op::Build { parent: None, ed: few(r), how: 0 },
                        _ => Op::Merge { ls: (0..r.range(1, 4)).map(|_| r.below(20) as u32).collect() },
                    };
                    v.push(st(h(r), op));
                }
                cl.push(v);
            }
            (pre, cl)
        }
        // a client does the same thing twice, whatever became of it
        "again" => {
            let mut cl = vec![];
            for _ in 0..r.range(1, 2) {
                let mut v = vec![];
                for _ in 0..r.range(1, 2) {
                    let ws: Vec<u32> = sw.w.iter().map(|x| x.1).collect();
                    let op = one(p, sw, p.ops[sw.w[r.weighted(&ws)].0].0, r);
                    let s = store_of(p, &op, r);
                    let hh = h(r);
                    let cancel = if p.cancel > 0 && r.one_in(2) { Some(r.range(1, 20) as u32) } else { None };
                    v.push(Step { h: hh, st: s, op: op.clone(), cancel });
                    v.push(Step { h: hh, st: s, op, cancel: None });
                }
                cl.push(v);
            }
            (vec![], cl)
        }
        // more layers than the archive cache holds, used in turns
        "evict" => {
            let mut pre = vec![];
            let n = r.range(3, 6);
            for i in 0..n {
                let k = r.range(40, 200);
                pre.push(st(same, Op::Build { parent: if i > 0 && r.one_in(2) { Some(0) } else { None }, ed: gen_edits(r, k, 0, true, 0), how: r.below(2) as u8 }));
            }
            let mut cl = vec![];
            for _ in 0..r.range(1, 3) {
                let mut v = vec![];
                for _ in 0..r.range(2, 6) {
                    let l = r.below(n) as u32;
                    let op = match r.below(8) {
                        0 => Op::Build { parent: None, ed: gen_edits(r, 60, 0, true, 0), how: 1 },
                        1 => Op::Rollup { l, keep: r.one_in(4) },
                        2 => Op::Load { l, n: 3 },
                        3 => Op::Hold { l },
                        4 => Op::Squash { l },
                        _ => Op::Check { l, full: *r.pick(&[0, 0, 3]) },
                    };
                    v.push(st(h(r), op));
                }
                cl.push(v);
            }
            (pre, cl)
        }
        x => panic!("no motif {x}"),
    }
}

/// An incarnation. `first`: includes the set-up of graphs and layers.
pub fn new_inc(p: &Profile, sw: &Swarm, r: &mut Rng, first: bool, small: bool) -> Inc {
    let plain = |op: Op| Step {
        h: 0,
        st: 0,
        op,
        cancel: None,
    };
    let mut pre = vec![];
    if first {
        for g in 0..sw.graphs {
            if !r.one_in(4) {
                pre.push(plain(Op::Create { g: g as u32 }));
            }
        }
        let n = r.range(p.chain.0, p.chain.1);
        for i in 0..n {
            // a tree, mostly deep
            let parent = if i == 0 || r.one_in(8) {
                None
            } else if r.one_in(4) {
                Some(r.below(i) as u32)
            } else {
                Some(0)
            };
            let rm = if parent.is_some() { 35 } else { 10 };
            pre.push(plain(Op::Build {
                parent,
                ed: edits(p, sw, r, rm),
                how: r.below(2) as u8,
            }));
            if r.chance(p.setup_rollups, 100) {
                let k = r.below(3);
                pre.push(plain(match k {
                    0 => Op::Rollup { l: r.below(i + 1) as u32, keep: r.one_in(4) },
                    1 => Op::RollupUpto {
                        l: r.below(2) as u32,
                        up: r.below(4) as u32,
                        keep: r.one_in(4),
                    },
                    _ => Op::Imprecise {
                        l: r.below(2) as u32,
                        up: r.below(4) as u32,
                    },
                }));
            }
        }
        for g in 0..sw.graphs {
            if n > 0 && r.one_in(2) {
                pre.push(plain(Op::SetHead {
                    g: g as u32,
                    l: r.below(4) as u32,
                }));
            }
        }
        if r.chance(p.setup_packs, 100) {
            for _ in 0..r.range(1, 2) {
                pre.push(plain(one(p, sw, "export", r)));
            }
        }
    }
    let (mut lo, mut hi) = p.clients;
    if small {
        lo = 1;
        hi = hi.min(2);
    }
    let nc = r.range(lo, hi);
    let ws: Vec<u32> = sw.w.iter().map(|x| x.1).collect();
    let (slo, shi) = if small { (1, 3) } else { p.steps };
    let mut clients = vec![];
    let mut nc = nc;
    if !p.motifs.is_empty() && r.chance(p.motif, 100) {
        let ws: Vec<u32> = p.motifs.iter().map(|x| x.1).collect();
        let (before, cl) = motif(p, sw, p.motifs[r.weighted(&ws)].0, r);
        pre.extend(before);
        clients = cl;
        nc = if r.one_in(3) { 1 } else { 0 };
    }
    for _ in 0..nc {
        let n = r.range(slo, shi);
        let mut steps = vec![];
        for _ in 0..n {
            let op = one(p, sw, p.ops[sw.w[r.weighted(&ws)].0].0, r);
            let st = store_of(p, &op, r);
            let cancel = if r.chance(sw.cancel, 100) {
                Some(match r.below(4) {
                    0 | 1 => r.range(1, 4),
                    2 => r.range(1, 12),
                    _ => r.range(1, 50),
                } as u32)
            } else {
                None
            };
            steps.push(Step {
                h: r.below(4) as u32,
                st,
                op,
                cancel,
            });
        }
        clients.push(steps);
    }
    Inc {
        pre,
        clients,
        faults: vec![],
        end: End::Exit,
        crash: CrashModel::Kill,
        crash_seed: r.next() >> 12,
        sched: sched_cfg(r),
        entropy: r.next() >> 12,
    }
}

/// Put faults into an incarnation whose fault-free run made the file-system
/// calls `log[lo..hi]`.
pub fn add_faults(p: &Profile, inc: &mut Inc, log: &[u32], odd: &[u64], lo: u64, hi: u64, r: &mut Rng, cov: &mut Cov) {
    let hi = hi.min(log.len() as u64);
    let lo = lo.min(hi);
    // crashes and delays do not care which part of a file is read
    let coarse = |s: u32| s & ((1 << shim::PART) - 1);
    let mut bys: [BTreeMap<u32, Vec<u64>>; 2] = Default::default();
    for i in lo..hi {
        bys[0].entry(coarse(log[i as usize])).or_default().push(i);
        bys[1].entry(log[i as usize]).or_default().push(i);
    }
    let all: [Vec<u32>; 2] = [bys[0].keys().copied().collect(), bys[1].keys().copied().collect()];
    let meet: Vec<u64> = odd.iter().copied().filter(|i| (lo..hi).contains(i)).collect();
    let dull = |s: u32, k: u8| {
        let c = s & 15;
        let look = c == Io::Stat as u32 || c == Io::Readdir as u32;
        c == Io::Close as u32 || c == Io::Seek as u32 || look && k != 1
    };
    // `k` is the kind of fault; sites that had few of those come first
    let mut pick = |r: &mut Rng, k: u8| -> u64 {
        if hi == lo {
            return lo;
        }
        let fine = k == 1 || k == 2;
        let (by, sites) = (&bys[fine as usize], &all[fine as usize]);
        let reads: Vec<u32> = sites.iter().copied().filter(|s| s & 15 == Io::Read as u32).collect();
        let lists: Vec<u32> = sites.iter().copied().filter(|s| s & 15 == Io::Readdir as u32).collect();
        let one = |r: &mut Rng| {
            if k == 1 && !lists.is_empty() && r.one_in(if p.prop == "P19" { 3 } else { 12 }) {
                return *r.pick(&lists);
            }
            if k == 1 && !reads.is_empty() && r.one_in(4) {
                return *r.pick(&reads);
            }
            let io = r.one_in(3);
            loop {
                let s = *r.pick(sites);
                if !dull(s, k) || r.one_in(3) {
                    // kinds of calls that are rare are met more often
                    if io || r.below(100) < 100 / by[&s].len().min(20) as u64 {
                        return s;
                    }
                }
            }
        };
        // two came together at one place: what is done about it, and around it
        if !meet.is_empty() && k != 2 && r.one_in(2) {
            let o = *r.pick(&meet);
            let near: Vec<u64> = (o.saturating_sub(20).max(lo)..(o + 20).min(hi))
                .filter(|i| {
                    let c = log[*i as usize] & 15;
                    c == Io::DirFsync as u32 || c == Io::Fsync as u32 || c == Io::Rename as u32
                })
                .collect();
            if !near.is_empty() {
                return *r.pick(&near);
            }
        }
        let at = if r.one_in(6) {
            r.range(lo, hi - 1)
        } else {
            let mut s = one(r);
            for _ in 0..r.below(6) {
                let o = one(r);
                if cov.get(&(o, k)).unwrap_or(&0) < cov.get(&(s, k)).unwrap_or(&0) {
                    s = o;
                }
            }
            *r.pick(&by[&s])
        };
        let s = log[at as usize];
        *cov.entry((if fine { s } else { coarse(s) }, k)).or_insert(0) += 1;
        at
    };
    if p.faults[0] > 0 && p.models[1] + p.models[2] > 0 && !meet.is_empty() && r.one_in(3) {
        // one is told that the other has done it, but the other has not finished
        let o = *r.pick(&meet);
        let near: Vec<u64> = (o.saturating_sub(12).max(lo)..(o + 12).min(hi))
            .filter(|i| log[*i as usize] & 15 == Io::DirFsync as u32)
            .collect();
        if !near.is_empty() {
            inc.crash = if r.one_in(3) { CrashModel::Random } else { CrashModel::LoseUnsynced };
            inc.end = End::Crash;
            inc.faults.push(Fault {
                at: *r.pick(&near),
                len: 1,
                kind: FaultKind::LateCrash(*r.pick(&[100_000, 10_000_000, 3_000_000_000])),
            });
            return;
        }
    }
    match r.weighted(&p.faults) {
        0 => {
            inc.crash = [CrashModel::Kill, CrashModel::LoseUnsynced, CrashModel::Random][r.weighted(&p.models)];
            inc.end = End::Crash;
            if inc.clients.len() > 1 && r.one_in(3) {
                // one call hangs, the others go on, then the end
                inc.faults.push(Fault {
                    at: pick(r, 4),
                    len: 1,
                    kind: FaultKind::LateCrash(*r.pick(&[100_000, 10_000_000, 3_000_000_000])),
                });
            } else if !r.one_in(6) {
                let mut at = pick(r, 0);
                if r.one_in(4) {
                    at += 1; // right after
                }
                inc.faults.push(Fault {
                    at,
                    len: 1,
                    kind: FaultKind::Crash {
                        frac: *r.pick(&[0u8, 1, 128, 255, 77]),
                    },
                });
            }
        }
        1 => {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                let e = *r.pick(&[libc::EIO, libc::EIO, libc::ENOSPC, libc::ENOSPC, libc::EMFILE, libc::EACCES]);
                inc.faults.push(Fault {
                    at: pick(r, 1),
                    len: *r.pick(&[1, 1, 1, 1, 2, 4, 10_000]),
                    kind: FaultKind::Errno(e),
                });
            }
            if r.one_in(5) {
                inc.end = End::Crash;
                inc.faults.push(Fault {
                    at: pick(r, 0) + r.below(20),
                    len: 1,
                    kind: FaultKind::Crash { frac: 128 },
                });
            }
        }
        2 => {
            for _ in 0..r.range(1, 6) {
                let k = if r.one_in(2) {
                    FaultKind::Short
                } else {
                    FaultKind::Stall(*r.pick(&[1_000_000, 50_000_000, 3_000_000_000, 60_000_000_000]))
                };
                let many = k == FaultKind::Short && r.one_in(3);
                inc.faults.push(Fault {
                    at: pick(r, if k == FaultKind::Short { 2 } else { 3 }),
                    len: if many { 10_000 } else { r.range(1, 3) },
                    kind: k,
                });
            }
        }
        _ => {
            // the same work under another schedule
            inc.sched = sched_cfg(r);
        }
    }
}
