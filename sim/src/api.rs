//! One interface over the asynchronous store API and the synchronous wrapper
//! (`store::sync`), so that every workload and every oracle runs on both.

use std::io;
use std::path::Path;
use terminus_store::store::sync::{SyncNamedGraph, SyncStore, SyncStoreLayer, SyncStoreLayerBuilder};
use terminus_store::store::{NamedGraph, Store, StoreLayer, StoreLayerBuilder};
use terminus_store::{IdTriple, Layer, ValueTriple};

pub type Name = [u32; 5];
type It = Box<dyn Iterator<Item = IdTriple> + Send>;

#[derive(Clone)]
pub enum AStore {
    A(Store),
    S(SyncStore),
}
#[derive(Clone)]
pub enum ALayer {
    A(StoreLayer),
    S(SyncStoreLayer),
}
#[derive(Clone)]
pub enum AGraph {
    A(NamedGraph),
    S(SyncNamedGraph),
}
#[derive(Clone)]
pub enum ABuilder {
    A(StoreLayerBuilder),
    S(SyncStoreLayerBuilder),
}

impl AStore {
    pub async fn create(&self, l: &str) -> io::Result<AGraph> {
        match self {
            AStore::A(s) => s.create(l).await.map(AGraph::A),
            AStore::S(s) => s.create(l).map(AGraph::S),
        }
    }
    pub async fn open(&self, l: &str) -> io::Result<Option<AGraph>> {
        match self {
            AStore::A(s) => s.open(l).await.map(|o| o.map(AGraph::A)),
            AStore::S(s) => s.open(l).map(|o| o.map(AGraph::S)),
        }
    }
    pub async fn delete(&self, l: &str) -> io::Result<bool> {
        match self {
            AStore::A(s) => s.delete(l).await,
            AStore::S(s) => s.delete(l),
        }
    }
    pub async fn labels(&self) -> io::Result<Vec<String>> {
        match self {
            AStore::A(s) => s.labels().await,
            AStore::S(s) => s.labels(),
        }
    }
    pub async fn layer(&self, n: Name) -> io::Result<Option<ALayer>> {
        match self {
            AStore::A(s) => s.get_layer_from_id(n).await.map(|o| o.map(ALayer::A)),
            AStore::S(s) => s.get_layer_from_id(n).map(|o| o.map(ALayer::S)),
        }
    }
    pub async fn base(&self) -> io::Result<ABuilder> {
        match self {
            AStore::A(s) => s.create_base_layer().await.map(ABuilder::A),
            AStore::S(s) => s.create_base_layer().map(ABuilder::S),
        }
    }
    pub async fn merge(&self, l: &[Name], tmp: &Path) -> io::Result<Name> {
        match self {
            AStore::A(s) => s.merge_base_layers(l, tmp).await,
            AStore::S(s) => s.merge_base_layers(l, tmp),
        }
    }
    pub async fn export(&self, l: Vec<Name>) -> io::Result<Vec<u8>> {
        match self {
            AStore::A(s) => s.export_layers(Box::new(l.into_iter())).await,
            AStore::S(s) => s.export_layers(Box::new(l.into_iter())),
        }
    }
    pub async fn import(&self, p: &[u8], l: Vec<Name>) -> io::Result<()> {
        match self {
            AStore::A(s) => s.import_layers(p, Box::new(l.into_iter())).await,
            AStore::S(s) => s.import_layers(p, Box::new(l.into_iter())),
        }
    }
}

macro_rules! layer_async {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty;)*) => {
        $(pub async fn $name(&self $(, $a: $t)*) -> io::Result<$r> {
            match self {
                ALayer::A(l) => l.$name($($a),*).await,
                ALayer::S(l) => l.$name($($a),*),
            }
        })*
    };
}

impl ALayer {
    pub fn l(&self) -> &dyn Layer {
        match self {
            ALayer::A(l) => l,
            ALayer::S(l) => l,
        }
    }
    pub fn name(&self) -> Name {
        self.l().name()
    }
    layer_async! {
        triple_addition_exists(s: u64, p: u64, o: u64) -> bool;
        triple_removal_exists(s: u64, p: u64, o: u64) -> bool;
        triple_additions() -> It;
        triple_removals() -> It;
        triple_additions_s(s: u64) -> It;
        triple_removals_s(s: u64) -> It;
        triple_additions_sp(s: u64, p: u64) -> It;
        triple_removals_sp(s: u64, p: u64) -> It;
        triple_additions_p(p: u64) -> It;
        triple_removals_p(p: u64) -> It;
        triple_additions_o(o: u64) -> It;
        triple_removals_o(o: u64) -> It;
        triple_layer_addition_count() -> usize;
        triple_layer_removal_count() -> usize;
        retrieve_layer_stack_names() -> Vec<Name>;
        rollup() -> ();
    }
    pub async fn open_write(&self) -> io::Result<ABuilder> {
        match self {
            ALayer::A(l) => l.open_write().await.map(ABuilder::A),
            ALayer::S(l) => l.open_write().map(ABuilder::S),
        }
    }
    pub async fn parent(&self) -> io::Result<Option<ALayer>> {
        match self {
            ALayer::A(l) => l.parent().await.map(|o| o.map(ALayer::A)),
            ALayer::S(l) => l.parent().map(|o| o.map(ALayer::S)),
        }
    }
    pub async fn squash(&self) -> io::Result<ALayer> {
        match self {
            ALayer::A(l) => l.squash().await.map(ALayer::A),
            ALayer::S(l) => l.squash().map(ALayer::S),
        }
    }
    pub async fn squash_upto(&self, u: &ALayer) -> io::Result<ALayer> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => l.squash_upto(u).await.map(ALayer::A),
            (ALayer::S(l), ALayer::S(u)) => l.squash_upto(u).map(ALayer::S),
            _ => unreachable!(),
        }
    }
    pub async fn rollup_upto(&self, u: &ALayer) -> io::Result<()> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => l.rollup_upto(u).await,
            (ALayer::S(l), ALayer::S(u)) => l.rollup_upto(u),
            _ => unreachable!(),
        }
    }
    pub async fn imprecise(&self, u: &ALayer) -> io::Result<()> {
        match (self, u) {
            (ALayer::A(l), ALayer::A(u)) => l.imprecise_rollup_upto(u).await,
            (ALayer::S(l), ALayer::S(u)) => l.imprecise_rollup_upto(u),
            _ => unreachable!(),
        }
    }
}

impl AGraph {
    pub fn name(&self) -> &str {
        match self {
            AGraph::A(g) => g.name(),
            AGraph::S(g) => g.name(),
        }
    }
    pub async fn head_version(&self) -> io::Result<(Option<ALayer>, u64)> {
        match self {
            AGraph::A(g) => g.head_version().await.map(|(l, v)| (l.map(ALayer::A), v)),
            AGraph::S(g) => g.head_version().map(|(l, v)| (l.map(ALayer::S), v)),
        }
    }
    pub async fn head(&self) -> io::Result<Option<ALayer>> {
        match self {
            AGraph::A(g) => g.head().await.map(|l| l.map(ALayer::A)),
            AGraph::S(g) => g.head().map(|l| l.map(ALayer::S)),
        }
    }
    pub async fn set_head(&self, l: &ALayer) -> io::Result<bool> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => g.set_head(l).await,
            (AGraph::S(g), ALayer::S(l)) => g.set_head(l),
            _ => unreachable!(),
        }
    }
    pub async fn force(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => g.force_set_head(l).await,
            (AGraph::S(g), ALayer::S(l)) => g.force_set_head(l),
            _ => unreachable!(),
        }
    }
    pub async fn force_version(&self, l: &ALayer, v: u64) -> io::Result<bool> {
        match (self, l) {
            (AGraph::A(g), ALayer::A(l)) => g.force_set_head_version(l, v).await,
            (AGraph::S(g), ALayer::S(l)) => g.force_set_head_version(l, v),
            _ => unreachable!(),
        }
    }
    pub async fn delete(&self) -> io::Result<()> {
        match self {
            AGraph::A(g) => g.delete().await,
            AGraph::S(g) => g.delete(),
        }
    }
}

impl ABuilder {
    pub fn name(&self) -> Name {
        match self {
            ABuilder::A(b) => b.name(),
            ABuilder::S(b) => b.name(),
        }
    }
    pub fn add(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.add_value_triple(t),
            ABuilder::S(b) => b.add_value_triple(t),
        }
    }
    pub fn remove(&self, t: ValueTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.remove_value_triple(t),
            ABuilder::S(b) => b.remove_value_triple(t),
        }
    }
    pub fn add_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.add_id_triple(t),
            ABuilder::S(b) => b.add_id_triple(t),
        }
    }
    pub fn remove_id(&self, t: IdTriple) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.remove_id_triple(t),
            ABuilder::S(b) => b.remove_id_triple(t),
        }
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Box<dyn terminus_store::layer::LayerBuilder>) -> R) -> io::Result<R> {
        match self {
            ABuilder::A(b) => b.with_builder(f),
            ABuilder::S(b) => b.with_builder(f),
        }
    }
    pub fn committed(&self) -> bool {
        match self {
            ABuilder::A(b) => b.committed(),
            ABuilder::S(b) => b.committed(),
        }
    }
    pub async fn commit(&self) -> io::Result<ALayer> {
        match self {
            ABuilder::A(b) => b.commit().await.map(ALayer::A),
            ABuilder::S(b) => b.commit().map(ALayer::S),
        }
    }
    pub async fn commit_no_load(&self) -> io::Result<()> {
        match self {
            ABuilder::A(b) => b.commit_no_load().await,
            ABuilder::S(b) => b.commit_no_load(),
        }
    }
    pub async fn apply_delta(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (ABuilder::A(b), ALayer::A(l)) => b.apply_delta(l).await,
            (ABuilder::S(b), ALayer::S(l)) => b.apply_delta(l),
            _ => unreachable!(),
        }
    }
    pub fn apply_diff(&self, l: &ALayer) -> io::Result<()> {
        match (self, l) {
            (ABuilder::A(b), ALayer::A(l)) => b.apply_diff(l),
            (ABuilder::S(b), ALayer::S(l)) => b.apply_diff(l),
            _ => unreachable!(),
        }
    }
}
