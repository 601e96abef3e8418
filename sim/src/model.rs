//! The executable reference model: what the store should say.

use crate::api::Name;
use crate::prng::{splitmix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tdb_succinct::{TdbDataType, TypedDictEntry};
use terminus_store::{ObjectType, ValueTriple};

/// subject, predicate, object key ("n..." a node, "v<type>:..." a value)
pub type T3 = (String, String, String);

// ------------------------------------------------------------------ vocabulary

pub fn node(i: u32) -> String {
    match i {
        20 => String::new(),
        21 => "x".repeat(300),
        22 => "ünïcödé → 😀".into(),
        23 => "tab\tnew\nline\"quote".into(),
        24 => "n1".into(),
        25 => "n".into(),
        26 => "n10n10".into(),
        _ => format!("n{i}"),
    }
}
pub fn pred(i: u32) -> String {
    match i {
        20 => String::new(),
        21 => "q".repeat(280),
        22 => "prédicat".into(),
        23 => "n1".into(),
        _ => format!("p{i}"),
    }
}
/// objects: below 100 nodes, 100.. values, from 1_000_000 on large random values
pub fn obj(i: u32) -> ObjectType {
    if i < 100 {
        return ObjectType::Node(node(i));
    }
    if i >= 1_000_000 {
        let mut s = i as u64;
        let mut t = String::with_capacity(2048);
        while t.len() < 2048 {
            let mut x = splitmix(&mut s);
            for _ in 0..10 {
                t.push((b'!' + (x % 90) as u8) as char);
                x /= 90;
            }
        }
        return ObjectType::Value(String::make_entry(&t));
    }
    let k = i - 100;
    let n = k / 16;
    ObjectType::Value(match k % 16 {
        0 | 1 | 2 => String::make_entry(&format!("v{n}")),
        3 => String::make_entry(&node(n)), // same text as a node
        4 => u32::make_entry(&n),
        5 => i32::make_entry(&(-(n as i32))),
        6 => u64::make_entry(&(n as u64 + (1 << 40))),
        7 => i64::make_entry(&-(n as i64 + (1 << 40))),
        8 => f64::make_entry(&(n as f64 * 1.5 - 3.0)),
        9 => f32::make_entry(&(n as f32 * 0.25 - 1.0)),
        10 => bool::make_entry(&(n % 2 == 0)),
        11 => u8::make_entry(&(n as u8)),
        12 => i8::make_entry(&(-(n as i8))),
        13 => u16::make_entry(&(n as u16 + 300)),
        14 => i16::make_entry(&(-(n as i16) - 300)),
        _ => String::make_entry(&match n % 4 {
            0 => "",
            1 => "längerer Text mit Umlauten äöü",
            2 => "a\nb",
            _ => "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz",
        }.to_string()),
    })
}
pub fn value_key(v: &TypedDictEntry) -> String {
    let b = v.to_bytes();
    let dt = v.datatype() as u32;
    if b.len() > 200 {
        let mut h = 0xcbf29ce484222325u64;
        for x in b.iter() {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        return format!("v{dt}#{h:016x}:{}", b.len());
    }
    if dt == 0 {
        if let Ok(s) = std::str::from_utf8(&b) {
            return format!("v0:{s}");
        }
    }
    let mut s = format!("v{dt}:");
    for x in b.iter() {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn obj_key(o: &ObjectType) -> String {
    match o {
        ObjectType::Node(n) => format!("n{n}"),
        ObjectType::Value(v) => value_key(v),
    }
}
pub fn key3(t: &ValueTriple) -> T3 {
    (t.subject.clone(), t.predicate.clone(), obj_key(&t.object))
}
pub fn show3(t: &T3) -> String {
    let c = |s: &str| {
        if s.chars().count() > 24 {
            format!("{}…({} bytes)", s.chars().take(16).collect::<String>(), s.len())
        } else {
            s.to_string()
        }
    };
    format!("({} {} {})", c(&t.0), c(&t.1), c(&t.2))
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Edit {
    pub add: bool,
    pub s: u32,
    pub p: u32,
    pub o: u32,
    /// use the identifiers of the parent layer when all three are known
    pub id: bool,
}
/// objects from here on stand for a triple the parent has
pub const HIT: u32 = 3_000_000_000;
/// objects from here on stand for a triple that an ancestor removed
pub const HIT_REMOVED: u32 = 3_500_000_000;
impl Edit {
    pub fn triple(&self) -> ValueTriple {
        ValueTriple {
            subject: node(self.s),
            predicate: pred(self.p),
            object: obj(self.o),
        }
    }
}

// ------------------------------------------------------------------ layers

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum St {
    Absent,
    /// name handed out, commit not asked for
    Building,
    /// commit asked for, outcome not known
    Maybe,
    Committed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rec {
    pub name: Name,
    pub parent: Option<usize>,
    pub origin: String,
    pub st: [St; 2],
    pub adds: BTreeSet<T3>,
    pub dels: BTreeSet<T3>,
    pub content: BTreeSet<T3>,
    /// when known: every term the dictionaries hold, "n..."/"v..." and predicates
    pub terms: Option<BTreeSet<String>>,
    pub preds: Option<BTreeSet<String>>,
    pub ids: BTreeMap<String, u64>,
    pub pids: BTreeMap<String, u64>,
    pub rolled: bool,
    /// while uncommitted its contents are not known for sure
    pub fuzzy: bool,
    /// somebody has found it, per store: it has to stay
    #[serde(default)]
    pub found: [bool; 2],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub text: String,
    pub inc: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pack {
    #[serde(with = "hexbytes")]
    pub bytes: Vec<u8>,
    pub layers: Vec<usize>,
}

mod hexbytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        let mut t = String::with_capacity(b.len() * 2);
        for x in b {
            t.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
            t.push(b"0123456789abcdef"[(x & 15) as usize] as char);
        }
        s.serialize_str(&t)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let t = String::deserialize(d)?;
        let v = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
        Ok(t.as_bytes().chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect())
    }
}

/// state of a named graph: None absent, else version and head
pub type LState = Option<(u64, Option<usize>)>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct World {
    pub layers: Vec<Rec>,
    /// the numbers of the nodes, predicates and objects in use
    #[serde(default)]
    pub nums: [BTreeMap<String, u32>; 3],
    pub packs: Vec<Pack>,
    /// label "store/name" -> states it may be in at the start of the incarnation
    pub labels: BTreeMap<String, Vec<LState>>,
    pub inc: u32,
}

impl World {
    pub fn find(&self, n: Name) -> Option<usize> {
        self.layers.iter().position(|l| l.name == n)
    }
    pub fn committed(&self, st: usize) -> Vec<usize> {
        (0..self.layers.len()).filter(|i| self.layers[*i].st[st] == St::Committed).collect()
    }
    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        // nearest first, not including i
        let mut v = vec![];
        let mut c = self.layers[i].parent;
        while let Some(p) = c {
            v.push(p);
            c = self.layers[p].parent;
        }
        v
    }
    pub fn is_self_or_ancestor(&self, anc: usize, i: usize) -> bool {
        anc == i || self.ancestors(i).contains(&anc)
    }
    /// An edit that picks a triple of the parent (or one that an ancestor
    /// removed), with the triple it stands for.
    pub fn settle(&self, parent: Option<usize>, e: &Edit) -> Edit {
        if e.o < HIT {
            return e.clone();
        }
        let k = (e.o % 1_000_000) as usize;
        let pick = parent.and_then(|p| {
            let now = &self.layers[p].content;
            if e.o < HIT_REMOVED {
                return now.iter().nth(k % now.len().max(1));
            }
            let mut gone: BTreeSet<&T3> = self.layers[p].dels.iter().collect();
            for a in self.ancestors(p) {
                gone.extend(self.layers[a].dels.iter());
            }
            gone.retain(|t| !now.contains(*t));
            gone.iter().nth(k % gone.len().max(1)).copied()
        });
        let nums = pick.and_then(|t| Some((*self.nums[0].get(&t.0)?, *self.nums[1].get(&t.1)?, *self.nums[2].get(&t.2)?)));
        let (s, p, o) = nums.unwrap_or((e.s, e.p, k as u32 % 9));
        Edit { s, p, o, ..e.clone() }
    }
    pub fn empty() -> BTreeSet<T3> {
        BTreeSet::new()
    }
    /// Record a layer being built; contents follow with `set_edits`.
    pub fn new_rec(&mut self, name: Name, parent: Option<usize>, origin: &str, store: usize) -> usize {
        if let Some(i) = self.find(name) {
            return i;
        }
        let (ids, pids) = match parent {
            None => Default::default(),
            Some(p) => (self.layers[p].ids.clone(), self.layers[p].pids.clone()),
        };
        let mut st = [St::Absent; 2];
        st[store] = St::Building;
        self.layers.push(Rec {
            name,
            parent,
            origin: origin.to_string(),
            st,
            adds: Default::default(),
            dels: Default::default(),
            content: Default::default(),
            terms: None,
            preds: None,
            ids,
            pids,
            rolled: false,
            fuzzy: false,
            found: [false; 2],
        });
        self.layers.len() - 1
    }
    /// Net effect of a builder that was given additions `a` and removals `r`.
    pub fn set_edits(&mut self, i: usize, a: &BTreeSet<T3>, r: &BTreeSet<T3>) {
        let parent = self.layers[i].parent;
        let base = match parent {
            None => BTreeSet::new(),
            Some(p) => self.layers[p].content.clone(),
        };
        let mut content = base.clone();
        for t in r.difference(a) {
            content.remove(t);
        }
        for t in a.difference(r) {
            content.insert(t.clone());
        }
        let mut terms = match parent {
            None => Some(BTreeSet::new()),
            Some(p) => self.layers[p].terms.clone(),
        };
        let mut preds = match parent {
            None => Some(BTreeSet::new()),
            Some(p) => self.layers[p].preds.clone(),
        };
        for t in a.difference(r) {
            if let Some(x) = terms.as_mut() {
                x.insert(format!("n{}", t.0));
                x.insert(t.2.clone());
            }
            if let Some(x) = preds.as_mut() {
                x.insert(t.1.clone());
            }
        }
        let l = &mut self.layers[i];
        l.adds = content.difference(&base).cloned().collect();
        l.dels = base.difference(&content).cloned().collect();
        l.content = content;
        l.terms = terms;
        l.preds = preds;
    }
    /// A layer known only by its contents (squash, merge).
    pub fn set_content(&mut self, i: usize, content: BTreeSet<T3>) {
        let base = match self.layers[i].parent {
            None => BTreeSet::new(),
            Some(p) => self.layers[p].content.clone(),
        };
        let l = &mut self.layers[i];
        l.adds = content.difference(&base).cloned().collect();
        l.dels = base.difference(&content).cloned().collect();
        l.content = content;
        l.terms = None;
        l.preds = None;
    }
}

// ------------------------------------------------------------------ named graphs

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LOp {
    Create,
    Delete,
    /// open or listing: only whether it exists
    Exists,
    Get,
    SetHead(usize),
    Force(usize),
    ForceV(usize, u64),
    /// the version and layer it was told to expect
    Clear(u64, Option<usize>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LRes {
    /// no result: crashed, abandoned or failed with an error
    Unknown,
    Ok,
    /// a boolean answer, or "not there"/"already there" for create/open/get/...
    Bool(bool),
    State(u64, Option<usize>),
    /// the head, without its version
    Head(Option<usize>),
    NotFound,
    Exists,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LEv {
    pub label: String,
    pub op: LOp,
    pub res: LRes,
    pub inv: u64,
    /// u64::MAX while unknown
    pub ret: u64,
    pub who: u32,
}

pub const INF: u64 = u64::MAX;

/// Possible states after `e` linearises in `s`; empty if impossible.
fn apply(w: &World, e: &LEv, overlap_mut: bool, s: &LState) -> Vec<LState> {
    use LOp::*;
    use LRes::*;
    let unknown = e.res == Unknown;
    let set = |l: Option<usize>, v: u64| vec![Some((v + 1, l))];
    match (&e.op, s) {
        (Create, None) if e.res == Ok || unknown => vec![Some((0, None))],
        (Create, Some(_)) if e.res == LRes::Exists => vec![*s],
        (Delete, Some(_)) if e.res == Bool(true) || e.res == Ok || unknown => vec![None],
        (Delete, None) if e.res == Bool(false) || e.res == Ok => vec![None],
        (LOp::Exists, x) => match &e.res {
            Bool(b) if *b == x.is_some() => vec![*s],
            _ => vec![],
        },
        (Get, None) if e.res == NotFound => vec![None],
        (Get, Some((v, l))) => match &e.res {
            State(a, b) if a == v && b == l => vec![*s],
            Head(b) if b == l => vec![*s],
            _ => vec![],
        },
        (SetHead(_) | Force(_) | ForceV(..) | Clear(..), None) => match e.res {
            NotFound => vec![None],
            // the graph was there when the update read it, and gone when it wrote
            Bool(false) if overlap_mut => vec![None],
            _ => vec![],
        },
        (SetHead(x), Some((v, l))) => {
            let ok = match l {
                None => true,
                Some(l) => w.is_self_or_ancestor(*l, *x),
            };
            match &e.res {
                Bool(true) if ok => set(Some(*x), *v),
                Unknown if ok => set(Some(*x), *v),
                Bool(false) if !ok || overlap_mut => vec![*s],
                _ => vec![],
            }
        }
        (Force(x), Some((v, _))) => match &e.res {
            Ok | Unknown => set(Some(*x), *v),
            _ => vec![],
        },
        (ForceV(x, n), Some((v, _))) => match &e.res {
            Bool(true) if v == n => set(Some(*x), *v),
            Unknown if v == n => set(Some(*x), *v),
            Bool(false) if v != n || overlap_mut => vec![*s],
            _ => vec![],
        },
        (Clear(n, m), Some((v, l))) => match &e.res {
            Bool(true) if (v, l) == (n, m) => set(None, *v),
            Unknown if (v, l) == (n, m) => set(None, *v),
            Bool(false) if (v, l) != (n, m) || overlap_mut => vec![*s],
            _ => vec![],
        },
        _ => vec![],
    }
}

pub fn is_mut(e: &LEv) -> bool {
    let m = matches!(
        e.op,
        LOp::Create | LOp::Delete | LOp::SetHead(_) | LOp::Force(_) | LOp::ForceV(..) | LOp::Clear(..)
    );
    m && matches!(e.res, LRes::Ok | LRes::Bool(true) | LRes::Unknown)
}

/// All states the label can be in after this history, starting from any of
/// `init`. Operations with an unknown result may have happened or not.
/// None: the history is not linearizable. Some(.., exhausted=false) otherwise.
pub fn linearize(w: &World, init: &[LState], evs: &[LEv], budget: &mut u64) -> Result<Vec<LState>, bool> {
    let n = evs.len();
    assert!(n <= 120, "history too long");
    let overlap: Vec<bool> = (0..n)
        .map(|i| {
            (0..n).any(|j| i != j && is_mut(&evs[j]) && evs[j].inv < evs[i].ret && evs[i].inv < evs[j].ret)
        })
        .collect();
    let need: u128 = (0..n)
        .filter(|i| evs[*i].res != LRes::Unknown)
        .fold(0u128, |a, i| a | 1 << i);
    let mut seen: BTreeSet<(u128, LState)> = BTreeSet::new();
    let mut out: BTreeSet<LState> = BTreeSet::new();
    let mut todo: Vec<(u128, LState)> = init.iter().map(|s| (0u128, *s)).collect();
    while let Some((done, s)) = todo.pop() {
        if !seen.insert((done, s)) {
            continue;
        }
        if *budget == 0 {
            return Err(true);
        }
        *budget -= 1;
        if done & need == need {
            out.insert(s);
        }
        // the earliest return among required operations not yet placed
        let horizon = (0..n)
            .filter(|i| need & (1 << i) != 0 && done & (1 << i) == 0)
            .map(|i| evs[i].ret)
            .min()
            .unwrap_or(INF);
        for i in 0..n {
            if done & (1 << i) != 0 || evs[i].inv > horizon {
                continue;
            }
            // an operation of unknown outcome cannot take effect after `ret`
            if evs[i].res == LRes::Unknown {
                let latest_inv = (0..n)
                    .filter(|j| done & (1 << j) != 0)
                    .map(|j| evs[j].inv)
                    .max()
                    .unwrap_or(0);
                if evs[i].ret < latest_inv {
                    continue;
                }
            }
            for t in apply(w, &evs[i], overlap[i], &s) {
                todo.push((done | 1 << i, t));
            }
        }
    }
    if out.is_empty() {
        return Err(false);
    }
    Ok(out.into_iter().collect())
}

pub fn gen_edits(r: &mut Rng, n: u64, odd: u64, big: bool, rm: u64) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.one_in(10) {
            // a duplicate, or the opposite of something in the same builder
            let mut e = r.pick(&v).clone();
            if r.one_in(2) {
                e.add = !e.add;
            }
            v.push(e);
            continue;
        }
        let add = !r.chance(rm, 100);
        let special = odd != 0 && r.one_in(odd);
        let s = if special { r.range(20, 26) } else { r.below(7) } as u32;
        let p = if odd != 0 && r.one_in(odd) { r.range(20, 23) } else { r.below(4) } as u32;
        let o = if big {
            1_000_000 + r.below(1 << 30)
        } else if special && r.one_in(2) {
            r.range(20, 26)
        } else if r.one_in(2) {
            r.below(9)
        } else {
            100 + r.below(16 * 4)
        } as u32;
        let o = if rm > 0 { aim(r, add, o) } else { o };
        v.push(Edit { add, s, p, o, id: r.one_in(5) });
    }
    v
}

/// Removals that remove something, additions of what was removed before.
fn aim(r: &mut Rng, add: bool, o: u32) -> u32 {
    match r.below(12) {
        0 => HIT_REMOVED + r.below(1_000_000) as u32,
        1 if add => HIT_REMOVED + r.below(1_000_000) as u32,
        2 => HIT + r.below(1_000_000) as u32,
        3..=9 if !add => HIT + r.below(1_000_000) as u32,
        _ => o,
    }
}

/// Many triples over many terms.
pub fn wide_edits(r: &mut Rng, n: u64, rm: u64) -> Vec<Edit> {
    let (ns, np, no) = (r.range(3, 300), r.range(1, 14), r.range(10, 1200));
    (0..n)
        .map(|_| {
            let add = !r.chance(rm, 100);
            let s = if r.one_in(8) { r.below(7) } else { 30 + r.below(ns) } as u32;
            let p = r.below(np) as u32;
            let o = match r.below(8) {
                0 => r.below(9) as u32,
                1 | 2 => 30 + r.below(60) as u32,
                _ => 100 + r.below(no) as u32,
            };
            let o = if rm > 0 { aim(r, add, o) } else { o };
            Edit { add, s, p, o, id: r.one_in(8) }
        })
        .collect()
}
