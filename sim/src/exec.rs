//! The simulated process: runs a workload against the real store code and
//! observes it. Everything in here executes inside the simulation.

use crate::api::*;
use crate::model::*;
use crate::ops::*;
use crate::sched::{self, NoPreempt};
use crate::shim;
use async_trait::async_trait;
use futures::FutureExt;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tdb_succinct::{StringDict, TypedDict};
use terminus_store::layer::{IdMap, Layer, TripleChange};
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
use terminus_store::storage::directory::{CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LayerStore, LockingHashMapLayerCache};
use terminus_store::store::sync::SyncStore;
use terminus_store::store::Store;
use terminus_store::{IdTriple, ObjectType, ValueTriple};

pub const DIRS: [&str; 2] = ["/simfs/a", "/simfs/b"];
pub const TMP: &str = "/simfs/tmp";

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Out {
    pub hist: Vec<LEv>,
    pub viol: Vec<Viol>,
    pub cover: BTreeMap<String, u64>,
    pub io_lo: u64,
    pub io_hi: u64,
    pub phase: String,
    pub pending: Vec<String>,
    /// when all abandoned work had come to its end
    pub settled: u64,
}

pub struct Ctx {
    phase_from: u64,
    pub w: World,
    pub out: Out,
    spec: Spec,
    inflight: BTreeMap<u64, (u64, String)>,
    next_op: u64,
    /// counts the invocations and responses of graph operations
    tick: u64,
    inc: u32,
    retry: Vec<(u32, Step)>,
    /// operations were abandoned in this incarnation
    abandoned: bool,
    faults_possible: bool,
    mem: Vec<(u32, i64)>,
    /// layers looked at after the restart and not rolled up since
    seen: std::collections::HashSet<(u8, usize)>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _g = NoPreempt::new();
    f(unsafe { &mut *CTX })
}
pub fn have_ctx() -> bool {
    unsafe { !CTX.is_null() }
}
fn now() -> u64 {
    sched::sim().steps
}
pub fn viol(class: &str, text: String) {
    with(|c| {
        if c.out.viol.len() < 40 {
            let inc = c.inc;
            let ph = c.out.phase.clone();
            sched::event("VIOLATION", 0, 0, || format!("{class}: {text}"));
            c.out.viol.push(Viol {
                class: class.to_string(),
                text: format!("[{ph}] {text}"),
                inc,
            });
        }
    })
}
fn cover(k: &str) {
    with(|c| {
        if let Some(x) = c.out.cover.get_mut(k) {
            *x += 1;
        } else {
            c.out.cover.insert(k.to_string(), 1);
        }
    })
}
fn note(text: impl FnOnce() -> String) {
    if sched::sim().trace.is_some() {
        sched::event("op", 0, 0, text);
    }
}

// ------------------------------------------------------------------ label store plumbing

/// The label stores behind their trait, with a caller who is slow now and then.
async fn lag() {
    let (n, d) = {
        let _g = NoPreempt::new();
        let s = sched::sim();
        let den = s.cfg.lag_den;
        if den == 0 || !s.rng.one_in(den) {
            return;
        }
        (s.rng.below(4), if s.rng.one_in(2) { s.rng.below(s.cfg.delay_max + 1) } else { 0 })
    };
    sched::count("slow_label_store_call", 1);
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
    if d > 0 {
        sched::sleep_until(sched::sim().now + d);
    }
}

struct ArcL(Arc<dyn LabelStore>);
#[async_trait]
impl LabelStore for ArcL {
    async fn labels(&self) -> io::Result<Vec<Label>> {
        lag().await;
        let r = self.0.labels().await;
        lag().await;
        r
    }
    async fn create_label(&self, name: &str) -> io::Result<Label> {
        lag().await;
        let r = self.0.create_label(name).await;
        lag().await;
        r
    }
    async fn get_label(&self, name: &str) -> io::Result<Option<Label>> {
        lag().await;
        let r = self.0.get_label(name).await;
        lag().await;
        r
    }
    async fn set_label_option(&self, label: &Label, layer: Option<[u32; 5]>) -> io::Result<Option<Label>> {
        lag().await;
        let r = self.0.set_label_option(label, layer).await;
        lag().await;
        r
    }
    async fn delete_label(&self, name: &str) -> io::Result<bool> {
        lag().await;
        let r = self.0.delete_label(name).await;
        lag().await;
        r
    }
}

#[derive(Clone)]
pub struct Handle {
    pub s: AStore,
    labels: Arc<dyn LabelStore>,
    layers: Option<CachedLayerStore>,
}

fn layer_store(kind: Kind, dir: &str) -> CachedLayerStore {
    let cache = LockingHashMapLayerCache::new();
    match kind {
        Kind::Mem => CachedLayerStore::new(MemoryLayerStore::new(), cache),
        Kind::Raw => {
            let b = DirectoryArchiveBackend::new(dir.into());
            CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), cache)
        }
        Kind::Lru(mb) => {
            let b = DirectoryArchiveBackend::new(dir.into());
            let b = LruArchiveBackend::new(b.clone(), b, mb as usize);
            CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), cache)
        }
        Kind::Dir => CachedLayerStore::new(DirectoryLayerStore::new(dir), cache),
    }
}

async fn open_handle(spec: &Spec, which: usize, h: u32) -> io::Result<Handle> {
    let dir = DIRS[which];
    let kind = spec.kinds[which];
    let cached = spec.labels == Labels::Cached && which == 0;
    let (s, labels, layers): (Store, Arc<dyn LabelStore>, Option<CachedLayerStore>) = if kind == Kind::Mem {
        let l: Arc<dyn LabelStore> = Arc::new(MemoryLabelStore::new());
        let ls = layer_store(kind, dir);
        (Store::new(ArcL(l.clone()), ls.clone()), l, Some(ls))
    } else if cached {
        let l: Arc<dyn LabelStore> = if spec.sync {
            Arc::new(terminus_store::store::sync::task_sync(CachedDirectoryLabelStore::open(dir))?)
        } else {
            Arc::new(CachedDirectoryLabelStore::open(dir).await?)
        };
        let ls = layer_store(kind, dir);
        (Store::new(ArcL(l.clone()), ls.clone()), l, Some(ls))
    } else if h % 2 == 1 {
        // the constructors users call
        let l: Arc<dyn LabelStore> = Arc::new(DirectoryLabelStore::new(dir));
        if spec.sync {
            use terminus_store::store::sync as y;
            let s = match kind {
                Kind::Raw => y::open_sync_raw_archive_store(dir),
                Kind::Lru(mb) => terminus_store::open_sync_archive_store(dir, mb as usize),
                _ => terminus_store::open_sync_directory_store(dir),
            };
            return Ok(Handle { s: AStore::S(s), labels: l, layers: None });
        }
        let s = match kind {
            Kind::Raw => terminus_store::store::open_raw_archive_store(dir),
            Kind::Lru(mb) => terminus_store::open_archive_store(dir, mb as usize),
            _ => terminus_store::open_directory_store(dir),
        };
        (s, l, None)
    } else {
        let l: Arc<dyn LabelStore> = Arc::new(DirectoryLabelStore::new(dir));
        let ls = layer_store(kind, dir);
        (Store::new(ArcL(l.clone()), ls.clone()), l, Some(ls))
    };
    Ok(Handle {
        s: if spec.sync {
            AStore::S(SyncStore::wrap(s))
        } else {
            AStore::A(s)
        },
        labels,
        layers,
    })
}

/// Store-level futures that have no synchronous counterpart in the API.
async fn raw<T: Send>(f: impl Future<Output = T> + Send) -> T {
    if with(|c| c.spec.sync) {
        terminus_store::store::sync::task_sync(f)
    } else {
        f.await
    }
}

// ------------------------------------------------------------------ one operation

struct OpCtx {
    id: u64,
    /// errors are excusable if one was injected at or after this step
    window: u64,
    cl: u32,
}

impl OpCtx {
    fn excused(&self) -> bool {
        let _g = NoPreempt::new();
        shim::fs().errno_steps.iter().any(|s| *s >= self.window)
    }
    /// an error return: either excused by an injected one, or a violation
    fn error(&self, class: &str, what: &str, e: &io::Error) {
        if self.excused() {
            cover("error.excused");
            note(|| format!("{what} failed: {e} (excused)"));
        } else {
            viol(class, format!("{what} failed with no fault to blame: {:?}: {e}", e.kind()));
        }
    }
}

/// Drops the inner future at its n-th suspension.
struct Abandon<F> {
    f: Option<Pin<Box<F>>>,
    left: u32,
}
impl<F: Future> Future for Abandon<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let r = self.f.as_mut().unwrap().as_mut().poll(cx);
        match r {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if self.left <= 1 {
                    self.f = None;
                    return Poll::Ready(None);
                }
                self.left -= 1;
                Poll::Pending
            }
        }
    }
}

pub struct Cl {
    id: u32,
    graphs: BTreeMap<(u32, u8, u32), AGraph>,
    vers: BTreeMap<(u8, u32), u64>,
    held: Vec<(u8, usize, ALayer)>,
}
impl Cl {
    fn new(id: u32) -> Self {
        Cl {
            id,
            graphs: Default::default(),
            vers: Default::default(),
            held: vec![],
        }
    }
}

struct Handles(Vec<[Handle; 2]>);
static mut HANDLES: *mut Handles = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn handles() -> &'static mut Vec<[Handle; 2]> {
    unsafe { &mut (*HANDLES).0 }
}
fn handle(h: u32, st: u8) -> Handle {
    let v = handles();
    let n = v.len();
    v[h as usize % n][st as usize & 1].clone()
}

fn begin(desc: String, cl: u32) -> OpCtx {
    with(|c| {
        let t = now();
        let id = c.next_op;
        c.next_op += 1;
        let window = c.inflight.values().map(|x| x.0).min().unwrap_or(t).min(t);
        sched::event("begin", id, 0, || format!("op{id} {desc}"));
        c.inflight.insert(id, (t, desc));
        OpCtx { id, window, cl }
    })
}

/// what the clients are up to, for spreading faults
fn doing(what: &str) {
    let _g = NoPreempt::new();
    shim::fs().tag = sched::hash_str(what) as u32;
}

async fn run_step(cl: &mut Cl, step: &Step, retrying: bool) {
    {
        let _g = NoPreempt::new();
        let d = format!("{:?}", step.op);
        doing(d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
    }
    let oc = {
        let _g = NoPreempt::new();
        begin(format!("client{} h{} st{} {:?} cancel={:?}", cl.id, step.h, step.st, step.op, step.cancel), cl.id)
    };
    let id = oc.id;
    let nviol = with(|c| c.out.viol.len());
    let before_excused = with(|c| c.out.cover.get("error.excused").copied().unwrap_or(0));
    let clid = cl.id;
    let fut = AssertUnwindSafe(exec_op(cl, &oc, step)).catch_unwind();
    let out = match step.cancel {
        Some(n) if !retrying => {
            Abandon {
                f: Some(Box::pin(fut)),
                left: n.max(1),
            }
            .await
        }
        _ => Some(fut.await),
    };
    let keep = match out {
        None => {
            cover("op.abandoned");
            with(|c| {
                c.abandoned = true;
                c.retry.push((clid, step.clone()));
            });
            true
        }
        Some(Ok(())) => {
            let now_excused = with(|c| c.out.cover.get("error.excused").copied().unwrap_or(0));
            if now_excused > before_excused && !retrying {
                with(|c| c.retry.push((clid, step.clone())));
            }
            false
        }
        Some(Err(p)) => {
            let t = p
                .downcast_ref::<String>()
                .cloned()
                .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            std::mem::forget(p);
            let seen = with(|c| c.out.viol.len()) > nviol;
            if !seen {
                viol("panic", format!("operation panicked: {t}"));
            }
            false
        }
    };
    with(|c| {
        sched::event("end", id, keep as u64, || format!("op{id}{}", if keep { " abandoned" } else { "" }));
        if !keep {
            c.inflight.remove(&id);
        }
    });
}

fn resolve(st: u8, l: u32) -> Option<usize> {
    with(|c| {
        let v = c.w.committed(st as usize & 1);
        if v.is_empty() {
            None
        } else {
            Some(v[v.len() - 1 - l as usize % v.len()])
        }
    })
}

/// Look up a committed layer; anything but the layer is a violation.
async fn get(oc: &OpCtx, h: &Handle, li: usize) -> Option<ALayer> {
    let name = with(|c| c.w.layers[li].name);
    match h.s.layer(name).await {
        Ok(Some(l)) => Some(l),
        Ok(None) => {
            viol("missing", format!("committed layer L{li} is not found"));
            None
        }
        Err(e) => {
            oc.error("op-err:lookup", &format!("lookup of committed layer L{li}"), &e);
            None
        }
    }
}

fn lab(st: u8, g: u32) -> (String, String) {
    let n = match g {
        5 => "graph with spaces & ünïcode".to_string(),
        6 => "dotted.name.v1".to_string(),
        8 => "../a/graph0".to_string(),
        9 => "./graph1".to_string(),
        10 => "../escape".to_string(),
        11 => String::new(),
        12 => "nul\0".to_string(),
        13 => "graph0.label".to_string(),
        _ => format!("graph{g}"),
    };
    (format!("{st}/{n}"), n)
}

/// Names that need not be accepted; but a store has to refuse such a name and
/// have no such graph, or treat it like any other.
fn refusable(g: u32) -> bool {
    matches!(g, 8 | 9 | 10 | 12)
}

fn lev(oc: &OpCtx, label: &str, op: LOp) -> usize {
    with(|c| {
        c.tick += 1;
        c.out.hist.push(LEv {
            label: label.to_string(),
            op,
            res: LRes::Unknown,
            inv: c.tick,
            ret: INF,
            who: oc.cl,
        });
        c.out.hist.len() - 1
    })
}
fn ldone(i: usize, res: LRes) {
    with(|c| {
        c.tick += 1;
        let t = c.tick;
        let e = &mut c.out.hist[i];
        e.res = res;
        e.ret = t;
        let e = e.clone();
        sched::event("label", 0, 0, || format!("{} {:?} -> {:?}", e.label, e.op, e.res));
    })
}
/// an unresolved read says nothing: drop it from the history
fn lforget(i: usize) {
    with(|c| c.out.hist[i].label.clear())
}

async fn graph(cl: &mut Cl, oc: &OpCtx, h: u32, st: u8, g: u32) -> Option<AGraph> {
    if let Some(x) = cl.graphs.get(&(h, st, g)) {
        return Some(x.clone());
    }
    let hd = handle(h, st);
    let (key, name) = lab(st, g);
    let i = lev(oc, &key, LOp::Exists);
    match hd.s.open(&name).await {
        Ok(Some(x)) => {
            ldone(i, LRes::Bool(true));
            cl.graphs.insert((h, st, g), x.clone());
            Some(x)
        }
        Ok(None) => {
            ldone(i, LRes::Bool(false));
            None
        }
        Err(e) => {
            lforget(i);
            if !refusable(g) {
                label_err(oc, "open", &name, &e);
            }
            None
        }
    }
}
fn label_err(oc: &OpCtx, what: &str, name: &str, e: &io::Error) {
    oc.error("label-err", &format!("{what} of graph {name:?}"), e);
}

/// The refusals by which the label stores say that there is no such graph
/// (whether that is the right answer is for the judge of the history).
fn not_found(e: &io::Error) -> bool {
    e.kind() == io::ErrorKind::NotFound || (e.kind() == io::ErrorKind::InvalidInput && e.to_string() == "label does not exist")
}

/// Read a label without loading the layer it names.
async fn peek(oc: &OpCtx, hd: &Handle, st: u8, g: u32) -> Option<(Label, Option<usize>)> {
    let (key, name) = lab(st, g);
    let i = lev(oc, &key, LOp::Get);
    let ls = hd.labels.clone();
    let n2 = name.clone();
    match raw(async move { ls.get_label(&n2).await }).await {
        Ok(None) => {
            ldone(i, LRes::NotFound);
            None
        }
        Ok(Some(l)) => {
            let li = match l.layer {
                None => None,
                Some(n) => match with(|c| c.w.find(n)) {
                    Some(x) => Some(x),
                    None => {
                        lforget(i);
                        viol("label-garbage", format!("label {name:?} names an unknown layer"));
                        return None;
                    }
                },
            };
            ldone(i, LRes::State(l.version, li));
            Some((l, li))
        }
        Err(e) => {
            lforget(i);
            if !refusable(g) {
                label_err(oc, "get_label", &name, &e);
            }
            None
        }
    }
}

async fn head(cl: &mut Cl, oc: &OpCtx, h: u32, st: u8, g: u32, full: u8) -> Option<Option<(ALayer, usize)>> {
    let gr = graph(cl, oc, h, st, g).await?;
    let (key, name) = lab(st, g);
    let i = lev(oc, &key, LOp::Get);
    // now and then without asking for the version
    let r = if now() % 4 == 3 {
        gr.head().await.map(|l| (l, None))
    } else {
        gr.head_version().await.map(|(l, v)| (l, Some(v)))
    };
    let res = |v: Option<u64>, l: Option<usize>| match v {
        Some(v) => LRes::State(v, l),
        None => LRes::Head(l),
    };
    match r {
        Ok((l, v)) => {
            match v {
                Some(v) => {
                    cl.vers.insert((st, g), v);
                }
                None => cover("head.unversioned"),
            }
            match l {
                None => {
                    ldone(i, res(v, None));
                    Some(None)
                }
                Some(l) => {
                    let n = l.name();
                    match with(|c| c.w.find(n)) {
                        None => {
                            lforget(i);
                            viol("label-garbage", format!("head of {name:?} is a layer nobody committed: {n:x?}"));
                            None
                        }
                        Some(li) => {
                            ldone(i, res(v, Some(li)));
                            check_layer(oc, &handle(h, st), &l, li, full, "head").await;
                            Some(Some((l, li)))
                        }
                    }
                }
            }
        }
        Err(e) => {
            if e.kind() == io::ErrorKind::NotFound && e.to_string() == "database not found" {
                ldone(i, LRes::NotFound);
            } else {
                lforget(i);
                let class = if e.to_string().contains("pointed at by a label") {
                    "head-missing"
                } else {
                    "head-err"
                };
                oc.error(class, &format!("reading the head of {name:?}"), &e);
            }
            None
        }
    }
}

fn upd_res(r: io::Result<bool>, i: usize, oc: &OpCtx, what: &str, name: &str) -> Option<bool> {
    match r {
        Ok(b) => {
            ldone(i, LRes::Bool(b));
            Some(b)
        }
        Err(e) => {
            if not_found(&e) {
                ldone(i, LRes::NotFound);
            } else {
                label_err(oc, what, name, &e);
            }
            None
        }
    }
}

async fn set_head(cl: &mut Cl, oc: &OpCtx, h: u32, st: u8, g: u32, l: &ALayer, li: usize) -> Option<bool> {
    let gr = graph(cl, oc, h, st, g).await?;
    let (key, name) = lab(st, g);
    let i = lev(oc, &key, LOp::SetHead(li));
    let r = gr.set_head(l).await;
    let b = upd_res(r, i, oc, "set_head", &name)?;
    cover(if b { "set_head.true" } else { "set_head.false" });
    Some(b)
}

fn set_status(li: usize, st: u8, s: St) {
    with(|c| c.w.layers[li].st[st as usize & 1] = s)
}

/// Apply edits to a builder, recording what it accepted.
fn apply_edits(b: &ABuilder, parent: Option<&ALayer>, pi: Option<usize>, ed: &[Edit], a: &mut BTreeSet<T3>, r: &mut BTreeSet<T3>) -> io::Result<()> {
    for e in ed {
        let (t, k) = {
            let _g = NoPreempt::new();
            let e = with(|c| c.w.settle(pi, e));
            let t = e.triple();
            let k = key3(&t);
            with(|c| {
                for (m, (x, n)) in c.w.nums.iter_mut().zip([(&k.0, e.s), (&k.1, e.p), (&k.2, e.o)]) {
                    m.entry(x.clone()).or_insert(n);
                }
            });
            (t, k)
        };
        let mut by_id: Option<IdTriple> = None;
        if e.id {
            if let Some(p) = parent {
                by_id = p.l().value_triple_to_id(&t);
            }
        }
        match (e.add, by_id) {
            (_, None) if now() % 8 == 5 => {
                let add = e.add;
                b.with(move |b| if add { b.add_value_triple(t) } else { b.remove_value_triple(t) })?
            }
            (true, Some(i)) => b.add_id(i)?,
            (false, Some(i)) => b.remove_id(i)?,
            (true, None) => b.add(t)?,
            (false, None) => b.remove(t)?,
        }
        let _g = NoPreempt::new();
        if e.add {
            a.insert(k);
        } else {
            r.insert(k);
        }
    }
    Ok(())
}

/// Create a builder on `parent` and register it. None: failed (already reported).
async fn new_builder(
    oc: &OpCtx,
    hd: &Handle,
    st: u8,
    parent: Option<usize>,
    origin: &str,
) -> Option<(ABuilder, usize, Option<ALayer>)> {
    let (b, pl) = match parent {
        None => match hd.s.base().await {
            Ok(b) => (b, None),
            Err(e) => {
                oc.error("op-err:commit", "create_base_layer", &e);
                return None;
            }
        },
        Some(p) => {
            let pl = get(oc, hd, p).await?;
            match pl.open_write().await {
                Ok(b) => (b, Some(pl)),
                Err(e) => {
                    oc.error("op-err:commit", "open_write", &e);
                    return None;
                }
            }
        }
    };
    let name = b.name();
    let li = with(|c| {
        if c.w.find(name).is_some() {
            return None;
        }
        let i = c.w.new_rec(name, parent, origin, st as usize & 1);
        sched::event("layer", i as u64, 0, || format!("L{i} = {} ({origin}, parent {parent:?})", hex(name)));
        Some(i)
    });
    let li = match li {
        None => {
            viol("builder", format!("two builders got the same layer name {}", hex(name)));
            return None;
        }
        Some(i) => i,
    };
    Some((b, li, pl))
}

pub fn hex(n: Name) -> String {
    n.iter().map(|x| format!("{x:08x}")).collect()
}

/// Commit; on success the layer counts as committed from here on.
async fn commit(oc: &OpCtx, hd: &Handle, st: u8, b: &ABuilder, li: usize, load: bool) -> Option<Option<ALayer>> {
    set_status(li, st, St::Maybe);
    let r = if load {
        b.commit().await.map(Some)
    } else {
        b.commit_no_load().await.map(|_| None)
    };
    match r {
        Ok(l) => {
            set_status(li, st, St::Committed);
            cover("commit.ok");
            if !b.committed() {
                viol("builder", "committed() is false after a successful commit".into());
            }
            if let Some(l) = &l {
                check_layer(oc, hd, l, li, 0, "commit result").await;
            }
            Some(l)
        }
        Err(e) => {
            oc.error("op-err:commit", "commit", &e);
            None
        }
    }
}

async fn build(oc: &OpCtx, hd: &Handle, st: u8, parent: Option<usize>, ed: &[Edit], how: u8) -> Option<(usize, Option<ALayer>)> {
    let (b, li, pl) = new_builder(oc, hd, st, parent, "build").await?;
    let (mut a, mut r) = Default::default();
    if let Err(e) = apply_edits(&b, pl.as_ref(), parent, ed, &mut a, &mut r) {
        viol("builder", format!("an edit on a fresh builder was refused: {e}"));
        return None;
    }
    with(|c| c.w.set_edits(li, &a, &r));
    if how == 2 {
        drop(b);
        cover("builder.dropped");
        return None;
    }
    let l = commit(oc, hd, st, &b, li, how == 0).await?;
    // a second commit and further edits are refused
    if (now() ^ li as u64) & 7 == 0 {
        let t = gen_edits(&mut crate::prng::Rng::new(li as u64), 1, 0, false, 0);
        if b.add(t[0].triple()).is_ok() || b.commit_no_load().await.is_ok() {
            viol("builder", "a committed builder accepted another edit or commit".into());
        }
    }
    Some((li, l))
}

/// Register a layer produced by the store under a name we learn only now.
fn produced(st: u8, name: Name, parent: Option<usize>, origin: &str, content: BTreeSet<T3>) -> usize {
    with(|c| {
        let i = c.w.new_rec(name, parent, origin, st as usize & 1);
        c.w.set_content(i, content);
        c.w.layers[i].st[st as usize & 1] = St::Committed;
        sched::event("layer", i as u64, 0, || format!("L{i} = {} ({origin})", hex(name)));
        i
    })
}

async fn exec_op(cl: &mut Cl, oc: &OpCtx, step: &Step) {
    let (h, st) = (step.h, step.st & 1);
    let hd = handle(h, st);
    macro_rules! layer {
        ($l:expr) => {
            match resolve(st, $l) {
                None => return,
                Some(x) => x,
            }
        };
    }
    match &step.op {
        Op::Build { parent, ed, how } => {
            let p = match parent {
                None => None,
                Some(l) => resolve(st, *l),
            };
            build(oc, &hd, st, p, ed, *how).await;
        }
        Op::Check { l, full } => {
            let li = layer!(*l);
            if let Some(x) = get(oc, &hd, li).await {
                check_layer(oc, &hd, &x, li, *full, "lookup").await;
            }
        }
        Op::Load { l, n } => {
            let li = layer!(*l);
            let name = with(|c| c.w.layers[li].name);
            if let AStore::A(s) = &hd.s {
                let mut js = vec![];
                for _ in 0..*n {
                    let s = s.clone();
                    js.push(tokio::spawn(async move { s.get_layer_from_id(name).await }));
                }
                for j in js {
                    match j.await {
                        Ok(Ok(Some(x))) => check_layer(oc, &hd, &ALayer::A(x), li, 0, "concurrent load").await,
                        Ok(Ok(None)) => viol("missing", format!("committed layer L{li} is not found (concurrent load)")),
                        Ok(Err(e)) => oc.error("op-err:lookup", &format!("concurrent load of L{li}"), &e),
                        Err(_) => {}
                    }
                }
            } else if let Some(x) = get(oc, &hd, li).await {
                check_layer(oc, &hd, &x, li, 0, "load").await;
            }
        }
        Op::Hold { l } => {
            let li = layer!(*l);
            if let Some(x) = get(oc, &hd, li).await {
                cl.held.push((st, li, x));
            }
        }
        Op::CheckHeld { i, full } => {
            if !cl.held.is_empty() {
                let k = *i as usize % cl.held.len();
                let (from, li, x) = cl.held[k].clone();
                let hd = handle(h, from);
                check_layer(oc, &hd, &x, li, *full, "held handle").await;
            }
        }
        Op::Release => cl.held.clear(),
        Op::Create { g } => {
            let (key, name) = lab(st, *g);
            let i = lev(oc, &key, LOp::Create);
            match hd.s.create(&name).await {
                Ok(x) => {
                    ldone(i, LRes::Ok);
                    if x.name() != name {
                        viol("label-garbage", format!("create({name:?}) gave a graph named {:?}", x.name()));
                    }
                    cl.graphs.insert((h, st, *g), x);
                }
                Err(e) => {
                    let exists = e.kind() == io::ErrorKind::AlreadyExists || e.to_string().contains("already exists");
                    if exists {
                        ldone(i, LRes::Exists);
                    } else if refusable(*g) && !oc.excused() {
                        cover("create.refused");
                        lforget(i);
                    } else {
                        label_err(oc, "create", &name, &e);
                    }
                }
            }
        }
        Op::Open { g } => {
            cl.graphs.remove(&(h, st, *g));
            graph(cl, oc, h, st, *g).await;
        }
        Op::Head { g, full } => {
            head(cl, oc, h, st, *g, *full).await;
        }
        Op::SetHead { g, l } => {
            let li = layer!(*l);
            if let Some(x) = get(oc, &hd, li).await {
                set_head(cl, oc, h, st, *g, &x, li).await;
            }
        }
        Op::Force { g, l } => {
            let li = layer!(*l);
            if let Some(x) = get(oc, &hd, li).await {
                if let Some(gr) = graph(cl, oc, h, st, *g).await {
                    let (key, name) = lab(st, *g);
                    let i = lev(oc, &key, LOp::Force(li));
                    match gr.force(&x).await {
                        Ok(()) => ldone(i, LRes::Ok),
                        Err(e) => {
                            upd_res(Err(e), i, oc, "force_set_head", &name);
                        }
                    }
                }
            }
        }
        Op::ForceV { g, l, d } => {
            let li = layer!(*l);
            if !cl.vers.contains_key(&(st, *g)) {
                head(cl, oc, h, st, *g, 0).await;
            }
            let v = match cl.vers.get(&(st, *g)) {
                None => return,
                Some(v) => (*v as i64 + *d).max(0) as u64,
            };
            if let Some(x) = get(oc, &hd, li).await {
                if let Some(gr) = graph(cl, oc, h, st, *g).await {
                    let (key, name) = lab(st, *g);
                    let i = lev(oc, &key, LOp::ForceV(li, v));
                    let r = gr.force_version(&x, v).await;
                    if upd_res(r, i, oc, "force_set_head_version", &name) == Some(true) {
                        cl.vers.insert((st, *g), v + 1);
                    }
                }
            }
        }
        Op::Clear { g } => {
            if let Some((l, li)) = peek(oc, &hd, st, *g).await {
                let (key, name) = lab(st, *g);
                let j = lev(oc, &key, LOp::Clear(l.version, li));
                let ls = hd.labels.clone();
                let v = l.version;
                let r = raw(async move { ls.clear_label(&l).await }).await;
                match r {
                    Ok(Some(n)) => {
                        ldone(j, LRes::Bool(true));
                        if n.version != v + 1 || n.layer.is_some() || n.name != name {
                            viol("label-garbage", format!("clear_label({name:?}) returned {n:?}"));
                        }
                    }
                    Ok(None) => ldone(j, LRes::Bool(false)),
                    Err(e) if not_found(&e) => ldone(j, LRes::NotFound),
                    Err(e) => label_err(oc, "clear_label", &name, &e),
                }
            }
        }
        Op::Delete { g, how } => {
            let (key, name) = lab(st, *g);
            let via = if *how == 1 { cl.graphs.get(&(h, st, *g)).cloned() } else { None };
            let i = lev(oc, &key, LOp::Delete);
            match via {
                Some(gr) => match gr.delete().await {
                    Ok(()) => ldone(i, LRes::Ok),
                    Err(e) => label_err(oc, "delete", &name, &e),
                },
                None => match hd.s.delete(&name).await {
                    Ok(b) => ldone(i, LRes::Bool(b)),
                    Err(_) if refusable(*g) && !oc.excused() => lforget(i),
                    Err(e) => label_err(oc, "delete", &name, &e),
                },
            }
        }
        Op::Labels => list_labels(oc, &hd, st).await,
        Op::Advance { g, ed } => {
            if let Some(hd_layer) = head(cl, oc, h, st, *g, 0).await {
                let p = hd_layer.map(|x| x.1);
                if let Some((li, l)) = build(oc, &hd, st, p, ed, 0).await {
                    set_head(cl, oc, h, st, *g, &l.unwrap(), li).await;
                }
            }
        }
        Op::Rollup { l, keep } => {
            let li = layer!(*l);
            with(|c| c.seen.remove(&(st, li)));
            if *keep && hd.layers.is_some() {
                roll_listed(oc, &hd, st, li, None).await;
                return;
            }
            if let Some(x) = get(oc, &hd, li).await {
                match x.rollup().await {
                    Ok(()) => {
                        cover("rollup.ok");
                        with(|c| c.w.layers[li].rolled = true);
                    }
                    Err(e) => oc.error("op-err:rollup", &format!("rollup of L{li}"), &e),
                }
                check_layer(oc, &hd, &x, li, 0, "handle across rollup").await;
            }
        }
        Op::RollupUpto { l, up, .. } | Op::Imprecise { l, up } => {
            let li = layer!(*l);
            with(|c| c.seen.remove(&(st, li)));
            let anc = with(|c| c.w.ancestors(li));
            if anc.is_empty() {
                return;
            }
            let u = anc[*up as usize % anc.len()];
            if matches!(step.op, Op::RollupUpto { keep: true, .. }) && hd.layers.is_some() {
                roll_listed(oc, &hd, st, li, Some(u)).await;
                return;
            }
            if let (Some(x), Some(y)) = (get(oc, &hd, li).await, get(oc, &hd, u).await) {
                let imp = matches!(step.op, Op::Imprecise { .. });
                let r = if imp { x.imprecise(&y).await } else { x.rollup_upto(&y).await };
                match r {
                    Ok(()) => {
                        cover(if imp { "imprecise_rollup.ok" } else { "rollup_upto.ok" });
                        with(|c| c.w.layers[li].rolled = true);
                    }
                    Err(e) => oc.error(
                        "op-err:rollup",
                        &format!("{} of L{li} up to L{u}", if imp { "imprecise rollup" } else { "rollup" }),
                        &e,
                    ),
                }
                check_layer(oc, &hd, &x, li, 0, "handle across rollup").await;
            }
        }
        Op::Squash { l } => {
            let li = layer!(*l);
            if let Some(x) = get(oc, &hd, li).await {
                match x.squash().await {
                    Ok(n) => {
                        cover("squash.ok");
                        let content = with(|c| c.w.layers[li].content.clone());
                        let k = produced(st, n.name(), None, "squash", content);
                        check_layer(oc, &hd, &n, k, 2, "squash result").await;
                    }
                    Err(e) => oc.error("op-err:squash", &format!("squash of L{li}"), &e),
                }
                check_layer(oc, &hd, &x, li, 0, "source of squash").await;
            }
        }
        Op::SquashUpto { l, up } => {
            let li = layer!(*l);
            with(|c| c.seen.remove(&(st, li)));
            let anc = with(|c| c.w.ancestors(li));
            if anc.is_empty() {
                return;
            }
            let u = anc[*up as usize % anc.len()];
            if let (Some(x), Some(y)) = (get(oc, &hd, li).await, get(oc, &hd, u).await) {
                match x.squash_upto(&y).await {
                    Ok(n) => {
                        cover("squash_upto.ok");
                        let content = with(|c| c.w.layers[li].content.clone());
                        let k = produced(st, n.name(), Some(u), "squash", content);
                        check_layer(oc, &hd, &n, k, 2, "squash_upto result").await;
                    }
                    Err(e) => oc.error("op-err:squash", &format!("squash of L{li} up to L{u}"), &e),
                }
            }
        }
        Op::Merge { ls } => {
            let (names, content) = with(|c| {
                let bases: Vec<usize> =
                    c.w.committed(st as usize).into_iter().filter(|i| c.w.layers[*i].parent.is_none()).collect();
                let mut pick: Vec<usize> = vec![];
                for l in ls {
                    if !bases.is_empty() {
                        let b = bases[*l as usize % bases.len()];
                        if !pick.contains(&b) {
                            pick.push(b);
                        }
                    }
                }
                let mut content = BTreeSet::new();
                for i in &pick {
                    content.extend(c.w.layers[*i].content.iter().cloned());
                }
                (pick.iter().map(|i| c.w.layers[*i].name).collect::<Vec<_>>(), content)
            });
            if names.is_empty() {
                return;
            }
            match hd.s.merge(&names, Path::new(TMP)).await {
                Ok(n) => {
                    cover("merge.ok");
                    let k = produced(st, n, None, "merge", content);
                    if let Some(x) = get(oc, &hd, k).await {
                        check_layer(oc, &hd, &x, k, 2, "merge result").await;
                    }
                }
                Err(e) => oc.error("op-err:merge", "merge_base_layers", &e),
            }
        }
        Op::Export { ls } => {
            let set: Vec<(usize, Name)> = with(|c| {
                let mut v = BTreeSet::new();
                let co = c.w.committed(st as usize);
                for l in ls {
                    if !co.is_empty() {
                        let i = co[co.len() - 1 - *l as usize % co.len()];
                        v.insert(i);
                        v.extend(c.w.ancestors(i));
                    }
                }
                v.into_iter().map(|i| (i, c.w.layers[i].name)).collect()
            });
            if set.is_empty() {
                return;
            }
            match hd.s.export(set.iter().map(|x| x.1).collect()).await {
                Ok(p) => {
                    cover("export.ok");
                    let want: BTreeMap<Name, Option<Name>> = with(|c| {
                        let l = &c.w.layers;
                        set.iter().map(|x| (x.1, l[x.0].parent.map(|p| l[p].name))).collect()
                    });
                    match terminus_store::storage::pack_layer_parents(&p[..]) {
                        Ok(m) => {
                            let m: BTreeMap<Name, Option<Name>> = m.into_iter().collect();
                            if m != want {
                                viol("pack", format!("the pack of {} layers has {} layers, or other parents", want.len(), m.len()));
                            }
                        }
                        Err(e) => viol("pack", format!("the pack's parents can not be read: {e:?}")),
                    }
                    with(|c| {
                        c.w.packs.push(Pack {
                            bytes: p,
                            layers: set.iter().map(|x| x.0).collect(),
                        })
                    });
                }
                Err(e) => oc.error("op-err:export", "export_layers", &e),
            }
        }
        Op::Import { p, pick, unknown } => import(oc, &hd, st, *p, pick, *unknown).await,
        Op::Shared { parent, parts, applied, commits } => {
            let p = match parent {
                None => None,
                Some(l) => resolve(st, *l),
            };
            shared(oc, &hd, st, p, parts, applied, *commits).await
        }
        Op::Delta { parent, l } => {
            let li = layer!(*l);
            let p = match parent {
                None => None,
                Some(l) => resolve(st, *l),
            };
            let Some(dl) = get(oc, &hd, li).await else { return };
            let Some((b, ni, _)) = new_builder(oc, &hd, st, p, "delta").await else { return };
            match b.apply_delta(&dl).await {
                Ok(()) => {
                    with(|c| {
                        let (a, r) = (c.w.layers[li].adds.clone(), c.w.layers[li].dels.clone());
                        c.w.set_edits(ni, &a, &r)
                    });
                    if let Some(x) = commit(oc, &hd, st, &b, ni, true).await {
                        cover("delta.ok");
                        check_layer(oc, &hd, &x.unwrap(), ni, 2, "apply_delta result").await;
                    }
                }
                Err(e) => oc.error("op-err:apply", "apply_delta", &e),
            }
        }
        Op::Diff { parent, l } => {
            let li = layer!(*l);
            let p = match parent {
                None => None,
                Some(l) => resolve(st, *l),
            };
            let Some(dl) = get(oc, &hd, li).await else { return };
            let Some((b, ni, _)) = new_builder(oc, &hd, st, p, "diff").await else { return };
            match b.apply_diff(&dl) {
                Ok(()) => {
                    with(|c| {
                        let want = c.w.layers[li].content.clone();
                        let base = match p {
                            None => BTreeSet::new(),
                            Some(p) => c.w.layers[p].content.clone(),
                        };
                        let a = want.difference(&base).cloned().collect();
                        let r = base.difference(&want).cloned().collect();
                        c.w.set_edits(ni, &a, &r)
                    });
                    if let Some(x) = commit(oc, &hd, st, &b, ni, true).await {
                        cover("diff.ok");
                        check_layer(oc, &hd, &x.unwrap(), ni, 2, "apply_diff result").await;
                    }
                }
                Err(e) => oc.error("op-err:apply", "apply_diff", &e),
            }
        }
        Op::List => list_layers(oc, &hd, st, true).await,
        Op::LookupAbsent => {
            let n = with(|_| {
                let s = sched::sim();
                let a = s.rng.next();
                let b = s.rng.next();
                [a as u32, (a >> 32) as u32, b as u32, (b >> 32) as u32, 7]
            });
            match hd.s.layer(n).await {
                Ok(None) => {}
                Ok(Some(_)) => viol("phantom", format!("lookup of a made-up id {} found a layer", hex(n))),
                Err(e) => oc.error("op-err:lookup", "lookup of an unknown id", &e),
            }
        }
        Op::LookupPending => {
            let c = with(|c| {
                let v: Vec<usize> = (0..c.w.layers.len())
                    .filter(|i| matches!(c.w.layers[*i].st[st as usize], St::Building | St::Maybe))
                    .collect();
                if v.is_empty() {
                    None
                } else {
                    Some(v[c.w.layers.len() * 7 % v.len()])
                }
            });
            if let Some(li) = c {
                lookup_uncertain(oc, &hd, st, li, "while being built").await;
            }
        }
        Op::Reopen => {
            let spec = with(|c| c.spec.clone());
            // memory stores and caching label stores have one handle only
            if spec.kinds[st as usize] != Kind::Mem && spec.labels == Labels::Plain {
                match open_handle(&spec, st as usize, h).await {
                    Ok(n) => {
                        let _g = NoPreempt::new();
                        let v = handles();
                        let k = h as usize % v.len();
                        let old = std::mem::replace(&mut v[k][st as usize], n);
                        drop(_g);
                        drop(old);
                        cl.graphs.clear();
                    }
                    Err(e) => oc.error("op-err:open", "opening the store", &e),
                }
            }
        }
        Op::Sleep { us } => {
            if with(|c| c.spec.sync) {
                std::thread::sleep(std::time::Duration::from_micros(*us));
            } else {
                tokio::time::sleep(std::time::Duration::from_micros(*us)).await;
            }
        }
        Op::Measure => {}
    }
}

/// Layers whose commit has not finished, in the stores that make them visible
/// all the same (a known finding).
fn unfinished(st: u8, li: usize) -> Option<&'static str> {
    let (k, s) = with(|c| (c.spec.kinds[st as usize & 1], c.w.layers[li].st));
    if matches!(s[st as usize], St::Committed) || s[1 - st as usize] == St::Committed {
        return None; // finished, or built elsewhere and imported
    }
    match k {
        Kind::Mem => Some("unfinished layer in a memory store"),
        Kind::Dir => Some("unfinished layer in a directory store"),
        _ => None,
    }
}

/// A layer whose commit has not been acknowledged: absent, or complete.
async fn lookup_uncertain(oc: &OpCtx, hd: &Handle, st: u8, li: usize, when: &str) -> Option<bool> {
    let u = unfinished(st, li);
    if u.is_some() && !with(|c| c.spec.probe) {
        return None;
    }
    let old = with(|c| c.out.phase.clone());
    let tagged = u.is_some() && when != "while being built";
    if tagged {
        // names a panic, too
        set_phase(&format!("audit, {}", u.unwrap()));
    }
    let when = &format!("{when}{}", u.map(|u| format!(" ({u})")).unwrap_or_default());
    let (name, before) = with(|c| (c.w.layers[li].name, c.w.layers[li].st[st as usize & 1]));
    let found = with(|c| c.w.layers[li].found[st as usize & 1]);
    let r = hd.s.layer(name).await;
    if tagged && r.is_ok() {
        set_phase(&old);
    }
    match r {
        Ok(None) => {
            let after = with(|c| c.w.layers[li].st[st as usize & 1]);
            let _ = after;
            if before == St::Committed {
                viol("missing", format!("committed layer L{li} is not found"));
            } else if found {
                viol("vanished", format!("layer L{li} is not found {when}, but it was found before"));
            }
            cover("uncertain.absent");
            Some(false)
        }
        Ok(Some(x)) => {
            let (after, fuzzy) = with(|c| (c.w.layers[li].st[st as usize & 1], c.w.layers[li].fuzzy));
            if after == St::Building {
                viol("partial", format!("layer L{li} is visible {when} although its commit was never asked for"));
            } else if !fuzzy || after == St::Committed {
                check_layer(oc, hd, &x, li, 3, "uncommitted layer").await;
            }
            if u.is_none() {
                with(|c| c.w.layers[li].found[st as usize & 1] = true);
            }
            cover("uncertain.present");
            Some(true)
        }
        Err(e) => {
            oc.error("partial", &format!("lookup of L{li} {when}"), &e);
            if tagged {
                set_phase(&old);
            }
            None
        }
    }
}

async fn list_labels(oc: &OpCtx, hd: &Handle, st: u8) {
    // one existence read per graph ever mentioned
    let keys: Vec<(String, String)> = with(|c| {
        let mut s: BTreeSet<String> = c.w.labels.keys().cloned().collect();
        s.extend(c.out.hist.iter().map(|e| e.label.clone()));
        let pre = format!("{st}/");
        s.into_iter()
            .filter(|k| k.starts_with(&pre))
            .map(|k| (k.clone(), k[2..].to_string()))
            .collect()
    });
    let evs: Vec<usize> = keys.iter().map(|k| lev(oc, &k.0, LOp::Exists)).collect();
    match hd.s.labels().await {
        Ok(v) => {
            for (k, i) in keys.iter().zip(evs.iter()) {
                ldone(*i, LRes::Bool(v.iter().any(|n| *n == k.1)));
            }
            let mut seen = BTreeSet::new();
            for n in &v {
                if !seen.insert(n.clone()) {
                    viol("labels-list", format!("labels() lists {n:?} twice"));
                }
                let known = with(|c| {
                    let k = format!("{st}/{n}");
                    c.w.labels.contains_key(&k) || c.out.hist.iter().any(|e| e.label == k)
                });
                if !known {
                    viol("labels-list", format!("labels() lists {n:?}, which was never created"));
                }
            }
        }
        Err(e) => {
            for i in evs {
                lforget(i);
            }
            oc.error("labels-err", "listing the graphs", &e);
        }
    }
}

/// Roll up through the layer store, which tells the name of the rollup layer,
/// and from then on use that layer like any other (the store lists it).
async fn roll_listed(oc: &OpCtx, hd: &Handle, st: u8, li: usize, upto: Option<usize>) {
    let ls = hd.layers.clone().unwrap();
    let (n, u) = with(|c| (c.w.layers[li].name, upto.map(|u| c.w.layers[u].name)));
    let r = raw(async move {
        match ls.get_layer(n).await? {
            None => Ok(None),
            Some(x) => match u {
                None => Arc::new(ls).rollup(x).await,
                Some(u) => ls.rollup_upto(x, u).await,
            }
            .map(Some),
        }
    })
    .await;
    let what = match upto {
        None => format!("rollup of L{li}"),
        Some(u) => format!("rollup of L{li} up to L{u}"),
    };
    match r {
        Err(e) => oc.error("op-err:rollup", &what, &e),
        Ok(None) => viol("missing", format!("{what}: the layer is not found")),
        Ok(Some(m)) => {
            cover("rollup.kept");
            with(|c| c.w.layers[li].rolled = true);
            let k = match with(|c| c.w.find(m)) {
                Some(k) => k,
                None => {
                    let content = with(|c| c.w.layers[li].content.clone());
                    produced(st, m, upto, "rollup", content)
                }
            };
            if let Some(x) = get(oc, hd, k).await {
                check_layer(oc, hd, &x, k, 1, "rollup layer").await;
            }
        }
    }
    if let Some(x) = get(oc, hd, li).await {
        check_layer(oc, hd, &x, li, 1, "after rollup").await;
    }
}

async fn list_layers(oc: &OpCtx, hd: &Handle, st: u8, load: bool) {
    let spec = with(|c| c.spec.clone());
    let ls = match &hd.layers {
        Some(l) => l.clone(),
        None => layer_store(spec.kinds[st as usize], DIRS[st as usize]),
    };
    let must: Vec<(usize, Name)> = with(|c| {
        c.w.committed(st as usize).into_iter().map(|i| (i, c.w.layers[i].name)).collect()
    });
    let l2 = ls.clone();
    match raw(async move { l2.layers().await }).await {
        Ok(v) => {
            let mut set = BTreeSet::new();
            for n in &v {
                if !set.insert(*n) {
                    viol("layers-list", format!("layers() lists {} twice", hex(*n)));
                }
            }
            for (i, n) in must {
                if !set.contains(&n) {
                    viol("layers-list", format!("layers() does not list committed layer L{i}"));
                    return;
                }
            }
            cover("layers.listed");
            if load {
                let probe = spec.probe || !matches!(spec.kinds[st as usize], Kind::Mem | Kind::Dir);
                for n in set {
                    let done = with(|c| c.w.find(n).map(|i| c.w.layers[i].st)).map_or(false, |s| s.contains(&St::Committed));
                    if !done && !probe || done && !sched::sim().rng.one_in(4) {
                        continue;
                    }
                    let note = match (done, spec.kinds[st as usize]) {
                        (false, Kind::Mem) => " (unfinished layer in a memory store)",
                        (false, Kind::Dir) => " (unfinished layer in a directory store)",
                        _ => "",
                    };
                    match hd.s.layer(n).await {
                        Ok(Some(_)) => {}
                        Ok(None) => viol("layers-list", format!("layers() lists {}, which is not found", hex(n))),
                        Err(e) => oc.error("layers-list", &format!("loading {} listed by layers(){note}", hex(n)), &e),
                    }
                }
            }
        }
        Err(e) => oc.error("layers-list", "listing the layers", &e),
    }
}

async fn import(oc: &OpCtx, hd: &Handle, st: u8, p: u32, pick: &[u32], unknown: u32) {
    let Some((bytes, sel, mut names, rest)) = with(|c| {
        if c.w.packs.is_empty() {
            return None;
        }
        let k = c.w.packs.len() - 1 - p as usize % c.w.packs.len();
        let pack = c.w.packs[k].clone();
        // nothing picked: the whole pack; else picked layers with their ancestry
        let mut sel: BTreeSet<usize> = BTreeSet::new();
        if pick.is_empty() {
            sel.extend(pack.layers.iter().copied());
        }
        for x in pick {
            let i = pack.layers[*x as usize % pack.layers.len()];
            sel.insert(i);
            sel.extend(c.w.ancestors(i));
        }
        let sel: Vec<usize> = sel.into_iter().collect();
        let mut names: Vec<Name> = sel.iter().map(|i| c.w.layers[*i].name).collect();
        for i in &sel {
            if c.w.layers[*i].st[st as usize] == St::Absent {
                c.w.layers[*i].st[st as usize] = St::Maybe;
            }
        }
        sched::sim().rng.shuffle(&mut names);
        let rest: Vec<usize> = pack.layers.iter().copied().filter(|i| !sel.contains(i)).collect();
        Some((pack.bytes, sel, names, rest))
    }) else {
        return;
    };
    let mut ghosts = vec![];
    for k in 0..unknown {
        let n = [0xabc0_0000 + k, oc.id as u32, 3, 4, 5];
        ghosts.push(n);
        names.push(n);
    }
    match hd.s.import(&bytes, names).await {
        Ok(()) => {
            cover("import.ok");
            with(|c| {
                for i in &sel {
                    c.w.layers[*i].st[st as usize] = St::Committed;
                }
            });
            for i in sel {
                if let Some(x) = get(oc, hd, i).await {
                    check_layer(oc, hd, &x, i, 2, "imported layer").await;
                }
            }
        }
        Err(e) => oc.error("op-err:import", "import_layers", &e),
    }
    // layers of the pack that nobody asked for stay out
    for i in rest {
        let absent = || with(|c| c.w.layers[i].st[st as usize] == St::Absent);
        if !absent() {
            continue;
        }
        let n = with(|c| c.w.layers[i].name);
        match hd.s.layer(n).await {
            Ok(None) => cover("import.rest-absent"),
            Ok(Some(_)) if absent() => viol("import-ghost", format!("L{i}, in the pack but not asked for, exists after the import")),
            Ok(Some(_)) => {}
            Err(e) if absent() => oc.error("import-ghost", "lookup of a layer in the pack that was not asked for", &e),
            Err(_) => {}
        }
    }
    for n in ghosts {
        match hd.s.layer(n).await {
            Ok(None) => {}
            Ok(Some(_)) => viol("import-ghost", "an id that was not in the pack exists after the import".into()),
            Err(e) => oc.error("import-ghost", "lookup of an id that was not in the pack", &e),
        }
    }
}

async fn shared(
    oc: &OpCtx,
    hd: &Handle,
    st: u8,
    parent: Option<usize>,
    parts: &[Vec<Edit>],
    applied: &[(u32, bool)],
    commits: u32,
) {
    let mut layers = vec![];
    for (l, diff) in applied {
        let Some(x) = resolve(st, *l) else { continue };
        let Some(dl) = get(oc, hd, x).await else { return };
        layers.push((dl, x, *diff));
    }
    let Some((b, li, pl)) = new_builder(oc, hd, st, parent, "shared").await else { return };
    with(|c| c.w.layers[li].fuzzy = true);
    type Acc = (BTreeSet<T3>, BTreeSet<T3>, u32);
    let ncommit = commits.max(1) as usize;
    let nwork = parts.len() + layers.len() + ncommit;
    set_status(li, st, St::Maybe);
    let pi = parent;
    async fn part(b: ABuilder, pl: Option<ALayer>, pi: Option<usize>, ed: Vec<Edit>, seen_commit: bool) -> Acc {
        let _ = seen_commit;
        let (mut a, mut r) = (BTreeSet::new(), BTreeSet::new());
        let mut refused = 0;
        for e in &ed {
            let was = b.committed();
            match apply_edits(&b, pl.as_ref(), pi, std::slice::from_ref(e), &mut a, &mut r) {
                Ok(()) => {
                    if was {
                        viol("builder", "an edit was accepted after committed() returned true".into());
                    }
                }
                Err(_) => {
                    refused += 1;
                    if !b.committed() {
                        viol("builder", "an edit was refused but committed() is false".into());
                    }
                }
            }
        }
        (a, r, refused)
    }
    /// Whether all of it was accepted, or it was refused
    async fn app(b: ABuilder, l: ALayer, x: usize, diff: bool, parent: Option<usize>) -> Option<Acc> {
        let was = b.committed();
        let r = if diff { b.apply_diff(&l) } else { b.apply_delta(&l).await };
        match r {
            Ok(()) => {
                let (a, d) = with(|c| {
                    let rec = &c.w.layers[x];
                    if !diff {
                        return (rec.adds.clone(), rec.dels.clone());
                    }
                    let base = parent.map(|p| c.w.layers[p].content.clone()).unwrap_or_default();
                    (
                        rec.content.difference(&base).cloned().collect(),
                        base.difference(&rec.content).cloned().collect(),
                    )
                });
                if was && a.len() + d.len() > 0 {
                    viol("builder", "changes of a layer were accepted after committed() returned true".into());
                }
                Some((a, d, 0))
            }
            Err(_) => None,
        }
    }
    enum R {
        P(Acc),
        A(Option<Acc>),
        C(io::Result<Option<ALayer>>),
    }
    async fn com(b: ABuilder, load: bool) -> io::Result<Option<ALayer>> {
        let r = if load {
            b.commit().await.map(Some)
        } else {
            b.commit_no_load().await.map(|_| None)
        };
        if !b.committed() {
            viol("builder", "committed() is false after a commit call returned".into());
        }
        r
    }
    let mut results: Vec<R> = vec![];
    let mut died = false;
    if let ABuilder::A(_) = &b {
        let mut js = vec![];
        for k in 0..nwork {
            let (b, pl) = (b.clone(), pl.clone());
            if k < parts.len() {
                let ed = parts[k].clone();
                js.push(tokio::spawn(async move { R::P(part(b, pl, pi, ed, false).await) }));
            } else if k < parts.len() + layers.len() {
                let (l, x, diff) = layers[k - parts.len()].clone();
                js.push(tokio::spawn(async move { R::A(app(b, l, x, diff, parent).await) }));
            } else {
                let load = k % 2 == 0;
                js.push(tokio::spawn(async move { R::C(com(b, load).await) }));
            }
        }
        for j in js {
            match j.await {
                Ok(r) => results.push(r),
                Err(_) => died = true,
            }
        }
    } else {
        let mut js = vec![];
        for k in 0..nwork {
            let (b, pl) = (b.clone(), pl.clone());
            if k < parts.len() {
                let ed = parts[k].clone();
                js.push(std::thread::spawn(move || R::P(futures::executor::block_on(part(b, pl, pi, ed, false)))));
            } else if k < parts.len() + layers.len() {
                let (l, x, diff) = layers[k - parts.len()].clone();
                js.push(std::thread::spawn(move || R::A(futures::executor::block_on(app(b, l, x, diff, parent)))));
            } else {
                let load = k % 2 == 0;
                js.push(std::thread::spawn(move || R::C(futures::executor::block_on(com(b, load)))));
            }
        }
        for j in js {
            match j.join() {
                Ok(r) => results.push(r),
                Err(_) => died = true,
            }
        }
    }
    if died {
        return; // the panic has been reported
    }
    let (mut a, mut r) = (BTreeSet::new(), BTreeSet::new());
    let mut oks = 0;
    let mut loaded = vec![];
    let mut errs = vec![];
    let mut refused = 0;
    let mut unsure = false;
    for x in results {
        match x {
            R::P((x, y, n)) => {
                a.extend(x);
                r.extend(y);
                refused += n;
            }
            R::A(Some((x, y, _))) => {
                a.extend(x);
                r.extend(y);
            }
            R::A(None) => {
                if !b.committed() && !oc.excused() {
                    viol("builder", "applying a layer was refused but committed() is false".into());
                }
                unsure = true;
            }
            R::C(Ok(l)) => {
                oks += 1;
                loaded.extend(l);
            }
            R::C(Err(e)) => errs.push(e),
        }
    }
    with(|c| {
        c.w.set_edits(li, &a, &r);
        *c.out.cover.entry("shared.refused_edits".into()).or_insert(0) += refused as u64;
    });
    if oks > 1 {
        viol("builder", format!("{oks} commits of one builder succeeded"));
    }
    for e in &errs {
        if !e.to_string().contains("already been committed") && !oc.excused() {
            viol("builder", format!("a losing commit failed with {e}"));
        }
    }
    if oks == 0 {
        if !oc.excused() {
            viol("builder", "no commit of a shared builder succeeded".into());
        }
        return;
    }
    if unsure {
        // some of the refused layer's changes may have come in before the
        // commit: what is there has to contain what was accepted
        cover("shared.refused_layers");
        let Some(l) = get(oc, hd, li).await else { return };
        let got: BTreeSet<T3> = match strs(l.l(), l.l().triples()) {
            Ok(v) => v.into_iter().collect(),
            Err(e) => return viol("content", format!("L{li} (shared): {e}")),
        };
        let base = parent.map(|p| with(|c| c.w.layers[p].content.clone())).unwrap_or_default();
        let (mut pa, mut pr) = (a.clone(), r.clone());
        for (_, x, _) in &layers {
            with(|c| {
                let rec = &c.w.layers[*x];
                pa.extend(rec.adds.iter().chain(rec.content.iter()).cloned());
                pr.extend(rec.dels.iter().cloned());
                pr.extend(base.difference(&rec.content).cloned());
            });
        }
        for t in a.difference(&pr) {
            if !got.contains(t) {
                viol("builder-content", format!("L{li} (shared): an accepted addition {t:?} is not in the layer"));
                return;
            }
        }
        for t in r.difference(&pa) {
            if got.contains(t) {
                viol("builder-content", format!("L{li} (shared): an accepted removal {t:?} is still in the layer"));
                return;
            }
        }
        for t in got.difference(&base) {
            if !pa.contains(t) {
                viol("builder-content", format!("L{li} (shared): {t:?} is in the layer, nobody added it"));
                return;
            }
        }
        for t in base.difference(&got) {
            if !pr.contains(t) {
                viol("builder-content", format!("L{li} (shared): {t:?} is not in the layer, nobody removed it"));
                return;
            }
        }
        let (a, r) = (got.difference(&base).cloned().collect(), base.difference(&got).cloned().collect());
        with(|c| c.w.set_edits(li, &a, &r));
    }
    with(|c| {
        c.w.layers[li].fuzzy = false;
        c.w.layers[li].st[st as usize] = St::Committed;
    });
    cover("shared.ok");
    for l in loaded {
        check_layer(oc, hd, &l, li, 2, "shared builder result").await;
    }
    if let Some(l) = get(oc, hd, li).await {
        check_layer(oc, hd, &l, li, 2, "shared builder result").await;
    }
}

// ------------------------------------------------------------------ layer oracle

struct Snap {
    rec: Rec,
    stack: Vec<Name>,
    parent: Option<Name>,
}

/// Compare a layer handle with the model. full: 0 contents, 1 + queries and
/// identifiers, 2 + changes, 3 like 0 plus changes.
async fn check_layer(oc: &OpCtx, hd: &Handle, l: &ALayer, li: usize, full: u8, what: &str) {
    let snap = with(|c| {
        let rec = c.w.layers[li].clone();
        let mut stack: Vec<Name> = c.w.ancestors(li).iter().map(|i| c.w.layers[*i].name).collect();
        stack.reverse();
        stack.push(rec.name);
        Snap {
            parent: rec.parent.map(|p| c.w.layers[p].name),
            rec,
            stack,
        }
    });
    let tag = format!("L{li} ({}, {what})", snap.rec.origin);
    if !check_content(l.l(), &snap, &tag) {
        return;
    }
    if full == 1 || full == 2 {
        if let Some((ids, pids)) = check_queries(l.l(), &snap, &tag) {
            with(|c| {
                // a descendant must agree with what its ancestors said
                let rec = &mut c.w.layers[li];
                for (k, v) in ids {
                    rec.ids.entry(k).or_insert(v);
                }
                for (k, v) in pids {
                    rec.pids.entry(k).or_insert(v);
                }
            });
        }
        match l.retrieve_layer_stack_names().await {
            Ok(v) => {
                if v != snap.stack {
                    viol("content", format!("{tag}: the layer stack is {} long instead of {}", v.len(), snap.stack.len()));
                }
            }
            Err(e) => oc.error("op-err:read", &format!("{tag}: layer stack"), &e),
        }
        match l.parent().await {
            Ok(p) => {
                if p.map(|p| p.name()) != snap.parent {
                    viol("content", format!("{tag}: parent() is a different layer"));
                }
            }
            Err(e) => oc.error("op-err:read", &format!("{tag}: parent"), &e),
        }
    }
    if full >= 2 {
        check_changes(oc, l, &snap, &tag, full == 2).await;
        check_net(oc, hd, l, &snap, li, &tag).await;
    }
    if full == 2 || (full == 1 && with(|c| c.spec.audit) & 32 != 0) {
        check_meta(oc, hd, l, &snap, &tag).await;
    }
    cover(match full {
        0 => "check.light",
        1 => "check.full",
        2 => "check.all",
        _ => "check.changes",
    });
}

fn strs(l: &dyn Layer, it: impl Iterator<Item = IdTriple>) -> Result<Vec<T3>, String> {
    let mut v = vec![];
    for t in it {
        match l.id_triple_to_string(&t) {
            None => return Err(format!("id triple {t:?} has no text")),
            Some(x) => {
                let _g = NoPreempt::new();
                v.push(key3(&x));
            }
        }
    }
    Ok(v)
}
fn same(got: Result<Vec<T3>, String>, want: &BTreeSet<T3>) -> Result<(), String> {
    let _g = NoPreempt::new();
    let got = got?;
    let n = got.len();
    let set: BTreeSet<T3> = got.into_iter().collect();
    if set.len() != n {
        return Err(format!("{} duplicates", n - set.len()));
    }
    if &set != want {
        let miss: Vec<String> = want.difference(&set).take(3).map(show3).collect();
        let extra: Vec<String> = set.difference(want).take(3).map(show3).collect();
        return Err(format!(
            "{} triples instead of {}; missing {miss:?}, extra {extra:?}",
            n,
            want.len()
        ));
    }
    Ok(())
}

fn class_of(tag: &str) -> &'static str {
    if tag.contains("squash") {
        "squash-content"
    } else if tag.contains("merge") {
        "merge-content"
    } else if tag.contains("apply_") || tag.contains("(delta") || tag.contains("(diff") {
        "apply-content"
    } else if tag.contains("shared") {
        "builder-content"
    } else if tag.contains("imported") {
        "import-content"
    } else if tag.contains("uncommitted") {
        "partial"
    } else if tag.contains(", head)") {
        "head-content"
    } else {
        "content"
    }
}

fn check_content(l: &dyn Layer, s: &Snap, tag: &str) -> bool {
    let class = class_of(tag);
    if l.name() != s.rec.name {
        viol(class, format!("{tag}: loaded a layer with another name"));
        return false;
    }
    if l.parent_name() != s.parent {
        viol(class, format!("{tag}: parent_name is {:x?} instead of {:x?}", l.parent_name(), s.parent));
        return false;
    }
    if let Err(e) = same(strs(l, l.triples()), &s.rec.content) {
        viol(class, format!("{tag}: triples(): {e}"));
        return false;
    }
    let n = l.triple_count();
    if n != s.rec.content.len() {
        viol(class, format!("{tag}: triple_count() is {n} instead of {}", s.rec.content.len()));
        return false;
    }
    true
}

fn objkey(o: &ObjectType) -> String {
    obj_key(o)
}

type Ids = (BTreeMap<String, u64>, BTreeMap<String, u64>);

fn check_queries(l: &dyn Layer, s: &Snap, tag: &str) -> Option<Ids> {
    let class = class_of(tag);
    let want = &s.rec.content;
    macro_rules! bad {
        ($c:expr, $($a:tt)*) => {{ viol($c, format!("{tag}: {}", format!($($a)*))); return None; }};
    }
    // identifiers: a full scan, both directions
    let n = l.node_and_value_count() as u64;
    let np = l.predicate_count() as u64;
    let mut ids: BTreeMap<String, u64> = BTreeMap::new();
    let mut pids: BTreeMap<String, u64> = BTreeMap::new();
    let (mut nodes, mut values) = (0usize, 0usize);
    for id in 1..=n {
        let o = match l.id_object(id) {
            None => bad!("ids", "identifier {id} of {n} is unknown"),
            Some(o) => o,
        };
        let k = objkey(&o);
        let (back, is_node) = match &o {
            ObjectType::Node(x) => (l.object_node_id(x), true),
            ObjectType::Value(v) => (l.object_value_id(v), false),
        };
        if back != Some(id) {
            bad!("ids", "identifier {id} is {} but that maps back to {back:?}", k);
        }
        if l.id_object_is_node(id) != Some(is_node) || l.id_object_is_value(id) != Some(!is_node) {
            bad!("ids", "id_object_is_node({id}) is wrong");
        }
        // (they are documented to panic for the other kind)
        if if is_node { l.id_object_node(id) != o.clone().node() } else { l.id_object_value(id) != o.clone().value() } {
            bad!("ids", "id_object_node({id}) or id_object_value({id}) is not {k}");
        }
        match l.id_subject(id) {
            Some(x) if is_node && format!("n{x}") == k => {
                if l.subject_id(&x) != Some(id) {
                    bad!("ids", "subject_id({x:?}) is not {id}");
                }
            }
            None if !is_node => {}
            x => bad!("ids", "id_subject({id}) is {x:?} but the object is {k}"),
        }
        if is_node {
            nodes += 1;
        } else {
            values += 1;
        }
        if let Some(other) = ids.insert(k.clone(), id) {
            bad!("ids", "{k} has two identifiers, {other} and {id}");
        }
    }
    for id in 1..=np {
        let p = match l.id_predicate(id) {
            None => bad!("ids", "predicate identifier {id} of {np} is unknown"),
            Some(p) => p,
        };
        if l.predicate_id(&p) != Some(id) {
            bad!("ids", "predicate {p:?} does not map back to {id}");
        }
        if let Some(o) = pids.insert(p.clone(), id) {
            bad!("ids", "predicate {p:?} has two identifiers, {o} and {id}");
        }
    }
    for k in [0, n + 1, n + 2, n + 1000, u64::MAX] {
        if l.id_object(k).is_some()
            || l.id_subject(k).is_some()
            || l.id_object_is_node(k).is_some()
            || l.id_object_is_value(k).is_some()
            || l.id_object_node(k).is_some()
            || l.id_object_value(k).is_some()
        {
            bad!("ids", "identifier {k} beyond the last ({n}) is known");
        }
        if l.triples_s(k).next().is_some() || l.triples_o(k).next().is_some() || l.triple_exists(k, 1, k) {
            bad!(class, "there are triples with the unknown identifier {k}");
        }
    }
    for k in [0, np + 1, np + 2, u64::MAX] {
        if l.id_predicate(k).is_some() || l.triples_p(k).next().is_some() || l.triple_exists(1, k, 1) || l.triples_sp(1, k).next().is_some() {
            bad!(
                "ids",
                "the unknown predicate {k} is known: id_predicate {:?}, triples_p {:?}, triple_exists {}, triples_sp {:?}",
                l.id_predicate(k),
                l.triples_p(k).next(),
                l.triple_exists(1, k, 1),
                l.triples_sp(1, k).next()
            );
        }
    }
    for x in ["no such thing", "n999", "nn"] {
        if ids.contains_key(&format!("n{x}")) {
            continue;
        }
        if l.subject_id(x).is_some() || l.object_node_id(x).is_some() {
            bad!("ids", "the unknown node {x:?} has an identifier");
        }
        if l.predicate_id(x).is_some() && !pids.contains_key(x) {
            bad!("ids", "the unknown predicate {x:?} has an identifier");
        }
    }
    let c = l.all_counts();
    if c.node_count != nodes || c.value_count != values || c.predicate_count != np as usize {
        bad!(
            "ids",
            "all_counts() says {} nodes, {} values, {} predicates; there are {nodes}, {values}, {np}",
            c.node_count,
            c.value_count,
            c.predicate_count
        );
    }
    if let Some(t) = &s.rec.terms {
        if t.len() != ids.len() || t.iter().any(|k| !ids.contains_key(k)) {
            let miss: Vec<_> = t.iter().filter(|k| !ids.contains_key(*k)).take(3).collect();
            let extra: Vec<_> = ids.keys().filter(|k| !t.contains(*k)).take(3).collect();
            bad!("ids", "the dictionary has {} entries instead of {}; missing {miss:?}, extra {extra:?}", ids.len(), t.len());
        }
    }
    if let Some(t) = &s.rec.preds {
        if t.len() != pids.len() || t.iter().any(|k| !pids.contains_key(k)) {
            bad!("ids", "there are {} predicates instead of {}", pids.len(), t.len());
        }
    }
    for (k, v) in &s.rec.ids {
        if ids.get(k) != Some(v) {
            bad!("ids", "{k} had identifier {v} and now has {:?}", ids.get(k));
        }
    }
    for (k, v) in &s.rec.pids {
        if pids.get(k) != Some(v) {
            bad!("ids", "predicate {k} had identifier {v} and now has {:?}", pids.get(k));
        }
    }
    // queries
    let mut wid: BTreeSet<IdTriple> = BTreeSet::new();
    for t in want {
        let (Some(a), Some(b), Some(c)) = (ids.get(&format!("n{}", t.0)), pids.get(&t.1), ids.get(&t.2)) else {
            bad!("ids", "a term of {} has no identifier", show3(t));
        };
        wid.insert(IdTriple::new(*a, *b, *c));
    }
    let filt = |f: &dyn Fn(&IdTriple) -> bool| -> BTreeSet<IdTriple> { wid.iter().filter(|t| f(t)).copied().collect() };
    let cmp = |name: String, it: Box<dyn Iterator<Item = IdTriple> + Send>, w: BTreeSet<IdTriple>| -> bool {
        let v: Vec<IdTriple> = it.collect();
        let g: BTreeSet<IdTriple> = v.iter().copied().collect();
        if g != w || g.len() != v.len() {
            viol(class, format!("{tag}: {name} gives {} triples ({} distinct) instead of {}", v.len(), g.len(), w.len()));
            return false;
        }
        true
    };
    for id in 1..=n {
        if !cmp(format!("triples_s({id})"), l.triples_s(id), filt(&|t| t.subject == id)) {
            return None;
        }
        if !cmp(format!("triples_o({id})"), l.triples_o(id), filt(&|t| t.object == id)) {
            return None;
        }
        for p in 1..=np {
            let w = filt(&|t| t.subject == id && t.predicate == p);
            let one = l.single_triple_sp(id, p);
            match one {
                None if w.is_empty() => {}
                Some(t) if w.contains(&t) => {}
                x => bad!(class, "single_triple_sp({id},{p}) gives {x:?}, there are {}", w.len()),
            }
            if !cmp(format!("triples_sp({id},{p})"), l.triples_sp(id, p), w) {
                return None;
            }
        }
    }
    for p in 1..=np {
        if !cmp(format!("triples_p({p})"), l.triples_p(p), filt(&|t| t.predicate == p)) {
            return None;
        }
    }
    // existence, for present and absent combinations
    let mut k = 0u64;
    for t in &wid {
        if !l.triple_exists(t.subject, t.predicate, t.object) {
            bad!(class, "triple_exists is false for {t:?}");
        }
        let st = l.id_triple_to_string(t);
        match st {
            Some(st) => {
                if !l.value_triple_exists(&st) || l.value_triple_to_id(&st) != Some(*t) || !l.id_triple_exists(*t) {
                    bad!(class, "value_triple_exists is false for {st:?}");
                }
                let other = ValueTriple { predicate: "no such thing".to_string(), ..st.clone() };
                let (r, u) = (l.value_triple_to_partially_resolved(st), l.value_triple_to_partially_resolved(other));
                if r.as_resolved() != Some(*t) {
                    bad!("ids", "value_triple_to_partially_resolved gives {:?} for {t:?}", r);
                }
                if u.subject != r.subject || u.object != r.object || (u.predicate.is_resolved() && !pids.contains_key("no such thing")) {
                    bad!("ids", "value_triple_to_partially_resolved with an unknown predicate gives {:?} for {t:?}", u);
                }
            }
            None => bad!("ids", "{t:?} has no text"),
        }
        k += 1;
        for q in [
            IdTriple::new(t.subject, t.predicate, (t.object + k) % n.max(1) + 1),
            IdTriple::new((t.subject + k) % n.max(1) + 1, t.predicate, t.object),
            IdTriple::new(t.subject, (t.predicate + k) % np.max(1) + 1, t.object),
        ] {
            if l.triple_exists(q.subject, q.predicate, q.object) != wid.contains(&q) {
                bad!(class, "triple_exists({q:?}) is wrong");
            }
        }
    }
    Some((ids, pids))
}

async fn check_changes(oc: &OpCtx, l: &ALayer, s: &Snap, tag: &str, deep: bool) {
    macro_rules! rd {
        ($e:expr, $what:expr) => {
            match {
                doing(stringify!($e));
                $e
            } {
                Ok(x) => x,
                Err(e) => {
                    oc.error("changes-err", &format!("{tag}: {}", $what), &e);
                    return;
                }
            }
        };
    }
    let ly = l.l();
    for side in 0..2 {
        let add = side == 0;
        let want = if add { &s.rec.adds } else { &s.rec.dels };
        let nm = if add { "additions" } else { "removals" };
        let it = if add {
            rd!(l.triple_additions().await, nm)
        } else {
            rd!(l.triple_removals().await, nm)
        };
        let all: Vec<IdTriple> = it.collect();
        if let Err(e) = same(strs(ly, all.iter().copied()), want) {
            viol("changes", format!("{tag}: {nm}: {e}"));
            return;
        }
        let n = if add {
            rd!(l.triple_layer_addition_count().await, "addition count")
        } else {
            rd!(l.triple_layer_removal_count().await, "removal count")
        };
        if n != want.len() {
            viol("changes", format!("{tag}: {nm}: the count is {n} instead of {}", want.len()));
            return;
        }
        if !deep {
            continue;
        }
        let other = if add { &s.rec.dels } else { &s.rec.adds };
        let mut probes: Vec<IdTriple> = all.clone();
        // probe with identifiers of the layer's other triples too
        for t in other.iter().chain(s.rec.content.iter()).take(12) {
            let o = if let Some(n) = t.2.strip_prefix('n') {
                ly.object_node_id(n)
            } else {
                all.first().map(|t| t.object)
            };
            if let (Some(a), Some(b), Some(c)) = (ly.subject_id(&t.0), ly.predicate_id(&t.1), o) {
                probes.push(IdTriple::new(a, b, c));
            }
        }
        probes.truncate(22);
        // and some that mean nothing
        let far = [0, ly.node_and_value_count() as u64 + 1, u64::MAX][(oc.id as usize + s.rec.name[0] as usize) % 3];
        let a = all.first().copied().unwrap_or(IdTriple::new(1, 1, 1));
        probes.push(IdTriple::new(far, if far == 0 { 0 } else { a.predicate }, a.object));
        probes.push(IdTriple::new(a.subject, far, far));
        let set: BTreeSet<IdTriple> = all.iter().copied().collect();
        let mut done: BTreeSet<(u8, u64, u64)> = BTreeSet::new();
        for t in probes {
            let e = if add {
                rd!(l.triple_addition_exists(t.subject, t.predicate, t.object).await, "addition exists")
            } else {
                rd!(l.triple_removal_exists(t.subject, t.predicate, t.object).await, "removal exists")
            };
            if e != set.contains(&t) {
                viol("changes", format!("{tag}: {nm}: existence of {t:?} is {e}"));
                return;
            }
            for kind in 0..4u8 {
                let key = match kind {
                    0 => (0, t.subject, 0),
                    1 => (1, t.subject, t.predicate),
                    2 => (2, t.predicate, 0),
                    _ => (3, t.object, 0),
                };
                if !done.insert(key) {
                    continue;
                }
                let it = match (kind, add) {
                    (0, true) => rd!(l.triple_additions_s(t.subject).await, nm),
                    (0, false) => rd!(l.triple_removals_s(t.subject).await, nm),
                    (1, true) => rd!(l.triple_additions_sp(t.subject, t.predicate).await, nm),
                    (1, false) => rd!(l.triple_removals_sp(t.subject, t.predicate).await, nm),
                    (2, true) => rd!(l.triple_additions_p(t.predicate).await, nm),
                    (2, false) => rd!(l.triple_removals_p(t.predicate).await, nm),
                    (_, true) => rd!(l.triple_additions_o(t.object).await, nm),
                    (_, false) => rd!(l.triple_removals_o(t.object).await, nm),
                };
                let v: Vec<IdTriple> = it.collect();
                let g: BTreeSet<IdTriple> = v.iter().copied().collect();
                let w: BTreeSet<IdTriple> = set
                    .iter()
                    .filter(|x| match kind {
                        0 => x.subject == t.subject,
                        1 => x.subject == t.subject && x.predicate == t.predicate,
                        2 => x.predicate == t.predicate,
                        _ => x.object == t.object,
                    })
                    .copied()
                    .collect();
                if g != w || g.len() != v.len() {
                    viol(
                        "changes",
                        format!("{tag}: {nm} by {}: {} triples instead of {}", ["subject", "subject and predicate", "predicate", "object"][kind as usize], v.len(), w.len()),
                    );
                    return;
                }
            }
        }
    }
}

/// The layer store's account of what a whole stack of layers, or the part of it
/// above an ancestor, amounts to.
async fn check_net(oc: &OpCtx, hd: &Handle, l: &ALayer, s: &Snap, li: usize, tag: &str) {
    let Some(ls) = hd.layers.clone() else { return };
    doing("layer_changes");
    let n = s.rec.name;
    let r = {
        let ls = ls.clone();
        raw(async move { ls.layer_changes(n).await }).await
    };
    let ly = l.l();
    match r {
        Ok(it) => {
            let v: Vec<(TripleChange, IdTriple)> = it.collect();
            if v.iter().any(|c| c.0 == TripleChange::Removal) {
                viol("changes", format!("{tag}: layer_changes: a removal of something that was never there"));
                return;
            }
            if let Err(e) = same(strs(ly, v.iter().map(|c| c.1)), &s.rec.content) {
                viol("changes", format!("{tag}: layer_changes: {e}"));
                return;
            }
        }
        Err(e) => oc.error("changes-err", &format!("{tag}: layer_changes"), &e),
    }
    let up = with(|c| {
        let a = c.w.ancestors(li);
        if a.is_empty() {
            return None;
        }
        let u = a[(oc.id as usize * 7 + li) % a.len()];
        let r = &c.w.layers[u];
        Some((u, r.name, r.content.clone()))
    });
    let Some((u, un, uc)) = up else { return };
    doing("layer_changes_upto");
    let r = raw(async move {
        let it = ls.layer_changes_upto(n, un).await?;
        let anc = ls.layer_is_ancestor_of(n, un).await?;
        let cna = ls.layer_is_ancestor_of(un, n).await?;
        let names = ls.retrieve_layer_stack_names_upto(n, un).await?;
        Ok::<_, io::Error>((it, anc, cna, names))
    })
    .await;
    match r {
        Ok((it, anc, cna, names)) => {
            let (a, d): (Vec<_>, Vec<_>) = it.partition(|c| c.0 == TripleChange::Addition);
            let want: BTreeSet<T3> = s.rec.content.difference(&uc).cloned().collect();
            if let Err(e) = same(strs(ly, a.iter().map(|c| c.1)), &want) {
                viol("changes", format!("{tag}: layer_changes_upto L{u}: additions: {e}"));
                return;
            }
            let want: BTreeSet<T3> = uc.difference(&s.rec.content).cloned().collect();
            if let Err(e) = same(strs(ly, d.iter().map(|c| c.1)), &want) {
                viol("changes", format!("{tag}: layer_changes_upto L{u}: removals: {e}"));
                return;
            }
            if !anc || cna {
                viol("meta", format!("{tag}: layer_is_ancestor_of L{u}: {anc}, the other way {cna}"));
            }
            let k = s.stack.iter().position(|x| *x == un).unwrap();
            if names != s.stack[k + 1..] {
                viol("meta", format!("{tag}: the stack up to L{u} has {} layers instead of {}", names.len(), s.stack.len() - k - 1));
            }
        }
        Err(e) => oc.error("changes-err", &format!("{tag}: layer_changes_upto"), &e),
    }
}

/// Layer-store metadata: the caching store must answer like an uncached one.
async fn check_meta(oc: &OpCtx, hd: &Handle, l: &ALayer, s: &Snap, tag: &str) {
    let Some(ls) = hd.layers.clone() else { return };
    let n = s.rec.name;
    let r = raw(async move {
        let mut v: Vec<Option<u64>> = vec![];
        v.push(ls.get_node_count(n).await?);
        v.push(ls.get_predicate_count(n).await?);
        v.push(ls.get_value_count(n).await?);
        let nd = ls.get_node_dictionary(n).await?;
        let pd = ls.get_predicate_dictionary(n).await?;
        let vd = ls.get_value_dictionary(n).await?;
        let d = vec![
            nd.as_ref().map(|d| d.num_entries() as u64),
            pd.as_ref().map(|d| d.num_entries() as u64),
            vd.as_ref().map(|d| d.num_entries() as u64),
        ];
        let p = ls.get_layer_parent_name(n).await?;
        let m = ls.get_node_value_idmap(n).await?;
        let pm = ls.get_predicate_idmap(n).await?;
        Ok::<_, io::Error>((v, d, p, (nd, pd, vd, m, pm)))
    })
    .await;
    match r {
        Ok((a, b, p, maps)) => {
            if a != b {
                viol("meta", format!("{tag}: node/predicate/value counts {a:?}, dictionaries have {b:?}"));
            } else if p != s.parent {
                viol("meta", format!("{tag}: get_layer_parent_name is wrong"));
            } else if let Some(e) = id_maps(l.l(), maps) {
                viol("meta", format!("{tag}: {e}"));
            }
        }
        Err(e) => oc.error("op-err:read", &format!("{tag}: layer metadata"), &e),
    }
}

struct Cold {
    counts: [Option<u64>; 3],
    entries: [Option<u64>; 3],
    changes: [usize; 2],
    adds: Vec<IdTriple>,
    dels: Vec<IdTriple>,
    parent: Option<Name>,
}

/// Ask the layer store about a layer that (often) nobody has loaded.
async fn look_cold(oc: &OpCtx, hd: &Handle, li: usize) -> Option<Cold> {
    let ls = hd.layers.clone()?;
    let n = with(|c| c.w.layers[li].name);
    let r = raw(async move {
        let counts = [ls.get_node_count(n).await?, ls.get_predicate_count(n).await?, ls.get_value_count(n).await?];
        let parent = ls.get_layer_parent_name(n).await?;
        let changes = [ls.triple_layer_addition_count(n).await?, ls.triple_layer_removal_count(n).await?];
        let adds = ls.triple_additions(n).await?.collect();
        let dels = ls.triple_removals(n).await?.collect();
        let entries = [
            ls.get_node_dictionary(n).await?.map(|d| d.num_entries() as u64),
            ls.get_predicate_dictionary(n).await?.map(|d| d.num_entries() as u64),
            ls.get_value_dictionary(n).await?.map(|d| d.num_entries() as u64),
        ];
        Ok::<_, io::Error>(Cold {
            counts,
            entries,
            changes,
            adds,
            dels,
            parent,
        })
    })
    .await;
    match r {
        Ok(c) => Some(c),
        Err(e) => {
            oc.error("op-err:read", &format!("L{li}: layer metadata before loading it"), &e);
            None
        }
    }
}
fn cold_agrees(l: &ALayer, li: usize, c: Cold) {
    let (rec, parent) = with(|x| {
        let r = x.w.layers[li].clone();
        let p = r.parent.map(|p| x.w.layers[p].name);
        (r, p)
    });
    let tag = format!("L{li} ({}, before loading it)", rec.origin);
    if c.counts != c.entries {
        viol("meta", format!("{tag}: node/predicate/value counts {:?}, dictionaries have {:?}", c.counts, c.entries));
    } else if c.parent != parent {
        viol("meta", format!("{tag}: get_layer_parent_name is wrong"));
    } else if c.changes != [rec.adds.len(), rec.dels.len()] {
        viol("changes", format!("{tag}: {:?} additions and removals instead of {:?}", c.changes, [rec.adds.len(), rec.dels.len()]));
    } else if let Err(e) = same(strs(l.l(), c.adds.into_iter()), &rec.adds) {
        viol("changes", format!("{tag}: triple_additions: {e}"));
    } else if let Err(e) = same(strs(l.l(), c.dels.into_iter()), &rec.dels) {
        viol("changes", format!("{tag}: triple_removals: {e}"));
    }
    cover("check.cold");
}

/// The layer's own dictionaries and id maps give the ids the layer gives.
fn id_maps(
    ly: &dyn Layer,
    (nd, pd, vd, m, pm): (Option<StringDict>, Option<StringDict>, Option<TypedDict>, Option<IdMap>, Option<IdMap>),
) -> Option<String> {
    let (Some(nd), Some(pd), Some(vd)) = (nd, pd, vd) else { return None };
    let nn = nd.num_entries() as u64;
    let own = nn + vd.num_entries() as u64;
    let Some(base) = (ly.node_and_value_count() as u64).checked_sub(own) else {
        return Some(format!("{own} entries of its own, but only {} in all", ly.node_and_value_count()));
    };
    let Some(pbase) = (ly.predicate_count() as u64).checked_sub(pd.num_entries() as u64) else {
        return Some(format!("{} predicates of its own, but only {} in all", pd.num_entries(), ly.predicate_count()));
    };
    let map = |m: &Option<IdMap>, i: u64| m.as_ref().map(|m| m.inner_to_outer(i)).unwrap_or(i);
    let back = |m: &Option<IdMap>, i: u64| m.as_ref().map(|m| m.outer_to_inner(i)).unwrap_or(i);
    for (i, e) in nd.iter().enumerate() {
        let i = i as u64 + 1;
        let o = map(&m, i);
        let want = String::from_utf8(e.to_bytes().to_vec()).ok();
        if ly.id_subject(base + o) != want || back(&m, o) != i {
            return Some(format!("own node {i} should have id {base}+{o}, which is {:?}", ly.id_subject(base + o)));
        }
    }
    for (i, e) in vd.iter().enumerate() {
        let i = nn + i as u64 + 1;
        let o = map(&m, i);
        if ly.id_object(base + o) != Some(ObjectType::Value(e)) || back(&m, o) != i {
            return Some(format!("own value {i} should have id {base}+{o}, which is {:?}", ly.id_object(base + o)));
        }
    }
    for (i, e) in pd.iter().enumerate() {
        let i = i as u64 + 1;
        let o = map(&pm, i);
        let want = String::from_utf8(e.to_bytes().to_vec()).ok();
        if ly.id_predicate(pbase + o) != want || back(&pm, o) != i {
            return Some(format!("own predicate {i} should have id {pbase}+{o}, which is {:?}", ly.id_predicate(pbase + o)));
        }
    }
    None
}

// ------------------------------------------------------------------ the process

fn set_phase(p: &str) {
    with(|c| {
        let n = sched::sim().steps;
        let k = format!("steps.{}", c.out.phase);
        *c.out.cover.entry(k).or_insert(0) += n - c.phase_from;
        c.phase_from = n;
        c.out.phase = p.to_string();
        sched::event("phase", 0, 0, || p.to_string());
    })
}

/// Look at everything. `fresh`: right after opening, i.e. after what ended the
/// previous incarnation.
async fn audit(cl: &mut Cl, h: u32, level: u8, fresh: bool) {
    for st in 0..2u8 {
        let oc = begin(format!("audit handle {h} store {st}"), cl.id);
        let hd = handle(h, st);
        let n = with(|c| c.w.layers.len());
        // Ancestors are shared by what is loaded at the same time; loading the
        // newest first and keeping everything looks at each layer file once.
        let keep = !with(|_| sched::sim().rng.one_in(6));
        let mut kept = vec![];
        let mut old = 0;
        let mut more = 0;
        for k in 0..n {
            let li = if keep { n - 1 - k } else { k };
            let s = with(|c| c.w.layers[li].st[st as usize]);
            // What was there before this incarnation has been looked at after
            // the restart, and other handles have read the same files: a few
            // of those will do.
            let before = with(|c| c.seen.contains(&(st, li)));
            if !fresh && s == St::Committed && level != 9 {
                if level == 0 && h > 0 {
                    more += 1;
                    if more > 3 && !sched::sim().rng.one_in(more as u64) {
                        continue;
                    }
                } else if before {
                    old += 1;
                    if old > 2 && !sched::sim().rng.one_in(8) {
                        continue;
                    }
                }
            }
            match s {
                St::Absent => {}
                // where labels are what matters, a sample of the layers will do
                St::Committed if with(|c| c.spec.audit) & 16 != 0 && !sched::sim().rng.one_in(5) => {}
                St::Committed => {
                    let cold = if sched::sim().rng.one_in(4) { look_cold(&oc, &hd, li).await } else { None };
                    if let Some(x) = get(&oc, &hd, li).await {
                        if let Some(c) = cold {
                            cold_agrees(&x, li, c);
                        }
                        if keep {
                            kept.push(x.clone());
                        }
                        if fresh {
                            with(|c| c.seen.insert((st, li)));
                        }
                        let lv = if level >= 2 && (li as u32 + oc.id as u32) % 3 == 0 { 2 } else { level.min(1) };
                        let lv = if level == 9 { 2 } else { lv };
                        check_layer(&oc, &hd, &x, li, lv, if fresh { "after reopening" } else { "audit" }).await;
                    }
                }
                St::Building | St::Maybe => {
                    let r = lookup_uncertain(&oc, &hd, st, li, if fresh { "after reopening" } else { "afterwards" }).await;
                    let fuzzy = with(|c| c.w.layers[li].fuzzy);
                    if fresh {
                        match r {
                            Some(true) if !fuzzy => set_status(li, st, St::Committed),
                            _ => set_status(li, st, St::Absent),
                        }
                    }
                }
            }
        }
        list_labels(&oc, &hd, st).await;
        let keys: Vec<u32> = (0..14)
            .filter(|g| {
                let k = lab(st, *g).0;
                with(|c| c.w.labels.contains_key(&k) || c.out.hist.iter().any(|e| e.label == k))
            })
            .collect();
        for g in keys {
            cl.graphs.remove(&(h, st, g));
            if with(|c| c.spec.audit) & 16 != 0 && sched::sim().rng.below(3) > 0 {
                peek(&oc, &hd, st, g).await;
            } else {
                head(cl, &oc, h, st, g, 0).await;
            }
        }
        if with(|c| c.spec.audit) & 4 != 0 {
            list_layers(&oc, &hd, st, true).await;
        }
        drop(kept);
        with(|c| c.inflight.remove(&oc.id));
    }
}

/// The store must be fully usable: build on what is there, create, move and
/// delete a graph.
async fn service(cl: &mut Cl, h: u32) {
    let inc = with(|c| c.inc);
    let oc = begin(format!("service check on handle {h}"), cl.id);
    let hd = handle(h, 0);
    let g = 7;
    let p = resolve(0, 0);
    let ed = gen_edits(&mut crate::prng::Rng::new(inc as u64 * 31 + h as u64), 4, 0, false, 20);
    let b = build(&oc, &hd, 0, p, &ed, 0).await;
    let Some((li, Some(l))) = b else {
        with(|c| c.inflight.remove(&oc.id));
        return;
    };
    let (key, name) = lab(0, g);
    cl.graphs.remove(&(h, 0, g));
    let i = lev(&oc, &key, LOp::Create);
    match hd.s.create(&name).await {
        Ok(_) => ldone(i, LRes::Ok),
        Err(e) => {
            lforget(i);
            label_err(&oc, "create", &name, &e)
        }
    }
    set_head(cl, &oc, h, 0, g, &l, li).await;
    head(cl, &oc, h, 0, g, 1).await;
    let i = lev(&oc, &key, LOp::Delete);
    match hd.s.delete(&name).await {
        Ok(b) => ldone(i, LRes::Bool(b)),
        Err(e) => {
            lforget(i);
            label_err(&oc, "delete", &name, &e)
        }
    }
    cl.graphs.remove(&(h, 0, g));
    with(|c| c.inflight.remove(&oc.id));
}

async fn nap(us: u64) {
    if with(|c| c.spec.sync) {
        std::thread::sleep(std::time::Duration::from_micros(us));
    } else {
        tokio::time::sleep(std::time::Duration::from_micros(us)).await;
    }
}

async fn process(inc: Inc) {
    let spec = with(|c| c.spec.clone());
    shim::fs().faults_on = false;
    set_phase("opening");
    let mut v: Vec<[Handle; 2]> = vec![];
    let one_handle = spec.kinds[0] == Kind::Mem || spec.labels == Labels::Cached;
    let nh = if one_handle { 1 } else { spec.handles.max(1) };
    for h in 0..nh {
        let mut pair = vec![];
        for st in 0..2 {
            if spec.kinds[st] == Kind::Mem && h > 0 {
                // what is in memory is there for one process only
                pair.push(v[0][st].clone());
                continue;
            }
            match open_handle(&spec, st, h).await {
                Ok(x) => pair.push(x),
                Err(e) => {
                    viol("open-err", format!("opening the store failed: {e}"));
                    return;
                }
            }
        }
        let b = pair.pop().unwrap();
        let a = pair.pop().unwrap();
        v.push([a, b]);
    }
    let live0 = unsafe { sched::LIVE };
    let _ = live0;
    unsafe { HANDLES = Box::into_raw(Box::new(Handles(v))) };
    let mut cl = Cl::new(100);
    if with(|c| c.inc) > 0 {
        set_phase("audit after restart");
        let lv = spec.audit & 3;
        audit(&mut cl, 0, if lv == 3 { 9 } else { lv }, true).await;
        if spec.audit & 8 != 0 {
            service(&mut cl, 0).await;
        }
    }
    set_phase("setup");
    for s in &inc.pre {
        run_step(&mut cl, s, true).await;
    }
    with(|c| c.out.io_lo = shim::fs().io);
    set_phase("clients");
    shim::fs().faults_on = true;
    if spec.sync {
        let mut js = vec![];
        for (i, steps) in inc.clients.iter().enumerate() {
            let steps = steps.clone();
            js.push(std::thread::spawn(move || {
                let mut cl = Cl::new(i as u32);
                futures::executor::block_on(async {
                    for s in &steps {
                        run_step(&mut cl, s, false).await;
                    }
                });
            }));
        }
        for j in js {
            let _ = j.join();
        }
    } else {
        let mut js = vec![];
        for (i, steps) in inc.clients.iter().enumerate() {
            let steps = steps.clone();
            js.push(tokio::spawn(async move {
                let mut cl = Cl::new(i as u32);
                for s in &steps {
                    run_step(&mut cl, s, false).await;
                }
            }));
        }
        for j in js {
            let _ = j.await;
        }
    }
    with(|c| c.out.io_hi = shim::fs().io);
    shim::fs().faults_on = false;
    set_phase("quiescence");
    // whatever was abandoned may still be finishing in the background
    nap(50_000).await;
    for _ in 0..60 {
        // calls may be slow, but they do end
        let n = {
            let _g = NoPreempt::new();
            shim::fs().held_locks()
        };
        if n == 0 {
            break;
        }
        nap(10_000_000).await;
    }
    with(|c| c.inflight.clear());
    {
        let _g = NoPreempt::new();
        let n = shim::fs().held_locks();
        if n > 0 {
            viol("lock-left", format!("{n} file locks are held although no operation is running"));
        }
    }
    // from here on nothing from before is still running, so whatever has not
    // taken effect never will
    with(|c| {
        c.tick += 1;
        c.out.settled = c.tick;
    });
    let retry: Vec<(u32, Step)> = with(|c| std::mem::take(&mut c.retry));
    if !retry.is_empty() {
        set_phase("retrying what was abandoned or failed");
        // without a retry what was left behind has to be all right as well
        let none = sched::sim().rng.one_in(4);
        for (_, s) in retry {
            if none || sched::sim().rng.one_in(8) {
                continue;
            }
            run_step(&mut cl, &s, true).await;
        }
    }
    set_phase("final audit");
    let lv = spec.audit & 3;
    cl.graphs.clear();
    // one handle looks at everything; each of the others is at least used
    let most = if lv == 3 { 0 } else { sched::sim().rng.below(nh as u64) as u32 };
    audit(&mut cl, most, if lv == 3 { 9 } else { lv }, false).await;
    for h in (0..nh).filter(|h| *h != most) {
        if sched::sim().rng.one_in(3) {
            audit(&mut cl, h, 0, false).await;
        }
    }
    for h in 0..nh {
        let less = spec.audit & 16 != 0;
        if h == most && !less || sched::sim().rng.one_in(2 + less as u64) {
            service(&mut cl, h).await;
        }
    }
    {
        let _g = NoPreempt::new();
        let n = shim::fs().held_locks();
        if n > 0 {
            viol("lock-left", format!("{n} file locks are held although no operation is running"));
        }
    }
    cl.held.clear();
    cl.graphs.clear();
    if let Kind::Lru(mb) = spec.kinds[0] {
        measure(mb).await;
    }
    set_phase("done");
}

/// How much memory do the store handles keep when nothing else refers to them?
async fn measure(mb: u32) {
    set_phase("measuring cache memory");
    nap(20_000_000).await;
    let n = handles().len();
    let layers = with(|c| c.w.layers.len()) as i64;
    // what was being built by operations that did not finish is no cache
    let unfinished = with(|c| {
        ["op.abandoned", "error.excused", "builder.dropped"].iter().map(|k| c.out.cover.get(*k).copied().unwrap_or(0)).sum::<u64>()
    }) as i64;
    for h in 0..n {
        let _g = NoPreempt::new();
        let dummy = open_mem_handle();
        let old = std::mem::replace(&mut handles()[h][0], dummy);
        let before = unsafe { sched::LIVE };
        drop(old);
        let kept = before - unsafe { sched::LIVE };
        let limit = mb as i64 * 1024 * 1024 + 96 * 1024 + layers * 1024 + unfinished * 700 * 1024;
        sched::event("measure", h as u64, 0, || format!("handle {h} kept {kept} bytes, limit {limit}"));
        with(|c| {
            let e = c.out.cover.entry("cache.kept_bytes_max".into()).or_insert(0);
            *e = (*e).max(kept.max(0) as u64);
        });
        if kept > limit {
            viol("memory", format!("a store with a {mb} MB cache kept {kept} bytes"));
        }
    }
}
fn open_mem_handle() -> Handle {
    let l: Arc<dyn LabelStore> = Arc::new(MemoryLabelStore::new());
    let ls = layer_store(Kind::Mem, "");
    Handle {
        s: AStore::A(Store::new(ArcL(l.clone()), ls.clone())),
        labels: l,
        layers: None,
    }
}

/// Entry point in the simulated process's main thread.
pub fn main_thread(spec: Spec, inc_no: u32, w: World) {
    let inc = {
        let _g = NoPreempt::new();
        let inc = spec.incs[0].clone();
        unsafe {
            CTX = Box::into_raw(Box::new(Ctx {
                w,
                out: Out::default(),
                spec: spec.clone(),
                tick: 0,
                phase_from: 0,
                seen: Default::default(),
                inflight: BTreeMap::new(),
                next_op: 1,
                inc: inc_no,
                retry: vec![],
                abandoned: false,
                faults_possible: !inc.faults.is_empty(),
                mem: vec![],
            }));
        }
        inc
    };
    if spec.sync {
        futures::executor::block_on(process(inc));
        return;
    }
    let rt = if spec.workers == 0 {
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .max_blocking_threads(spec.blocking.max(1) as usize)
            .build()
            .unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(spec.workers as usize)
            .max_blocking_threads(spec.blocking.max(1) as usize)
            .enable_all()
            .build()
            .unwrap()
    };
    rt.block_on(process(inc));
    std::mem::forget(rt);
}

pub fn finish(crashed: bool) -> (World, Out) {
    let c = unsafe { &mut *CTX };
    c.out.pending = c.inflight.values().map(|x| x.1.clone()).collect();
    let _ = crashed;
    (c.w.clone(), c.out.clone())
}
