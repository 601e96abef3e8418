//! Workload description: what clients do, on which stores, under which faults.

use crate::model::Edit;
use crate::sched::SchedCfg;
use crate::shim::Fault;
use crate::vfs::CrashModel;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// how: 0 commit, 1 commit without loading, 2 drop without committing
    Build { parent: Option<u32>, ed: Vec<Edit>, how: u8 },
    Check { l: u32, full: u8 },
    /// several concurrent loads of one layer
    Load { l: u32, n: u32 },
    Hold { l: u32 },
    CheckHeld { i: u32, full: u8 },
    Release,
    Create { g: u32 },
    Open { g: u32 },
    Head { g: u32, full: u8 },
    SetHead { g: u32, l: u32 },
    Force { g: u32, l: u32 },
    ForceV { g: u32, l: u32, d: i64 },
    Clear { g: u32 },
    Delete { g: u32, how: u8 },
    Labels,
    /// read the head, build a child of it, set the head
    Advance { g: u32, ed: Vec<Edit> },
    /// keep: learn the name of the rollup layer and use it as a layer from then on
    Rollup {
        l: u32,
        #[serde(default)]
        keep: bool,
    },
    RollupUpto {
        l: u32,
        up: u32,
        #[serde(default)]
        keep: bool,
    },
    Imprecise { l: u32, up: u32 },
    Squash { l: u32 },
    SquashUpto { l: u32, up: u32 },
    Merge { ls: Vec<u32> },
    Export { ls: Vec<u32> },
    Import { p: u32, pick: Vec<u32>, unknown: u32 },
    /// one builder used by several threads or tasks: edits, layers applied with
    /// apply_delta or apply_diff (true), and commits
    Shared {
        parent: Option<u32>,
        parts: Vec<Vec<Edit>>,
        #[serde(default)]
        applied: Vec<(u32, bool)>,
        commits: u32,
    },
    Delta { parent: Option<u32>, l: u32 },
    Diff { parent: Option<u32>, l: u32 },
    List,
    LookupAbsent,
    LookupPending,
    Reopen,
    Sleep { us: u64 },
    /// drop the store handle and see how much memory it kept
    Measure,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// store handle
    pub h: u32,
    /// which store (0 the main one, 1 the import target)
    pub st: u8,
    pub op: Op,
    /// drop the future at its n-th suspension
    pub cancel: Option<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Mem,
    Raw,
    Lru(u32),
    Dir,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Labels {
    Plain,
    Cached,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    /// the process exits in good order
    Exit,
    /// everything acknowledged, then the crash model strikes
    Crash,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inc {
    pub pre: Vec<Step>,
    pub clients: Vec<Vec<Step>>,
    pub faults: Vec<Fault>,
    pub end: End,
    pub crash: CrashModel,
    pub crash_seed: u64,
    pub sched: SchedCfg,
    pub entropy: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub profile: String,
    pub seed: u64,
    pub kinds: [Kind; 2],
    pub labels: Labels,
    pub handles: u32,
    /// 0: current-thread runtime; else a multi-thread runtime
    pub workers: u32,
    pub blocking: u32,
    pub rayon: u32,
    /// clients are threads using store::sync
    pub sync: bool,
    /// how thorough the audits are
    pub audit: u8,
    /// also look up what memory and directory stores are known to get wrong
    /// (known_findings.json): layers whose commit has not finished
    #[serde(default)]
    pub probe: bool,
    pub incs: Vec<Inc>,
}
