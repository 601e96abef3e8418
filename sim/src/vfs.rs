//! In-memory file system with an explicit durability model.
//!
//! Every inode keeps what has been made durable (by fsync of the file, or for
//! directory entries by fsync of the directory, as POSIX promises) next to what
//! is merely visible, with the ordered list of not-yet-durable operations in
//! between. A crash picks what survives.

use crate::prng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub type Ino = u64;
pub const ROOT: Ino = 1;

#[derive(Clone, Debug)]
pub enum FOp {
    Write { off: u64, data: Vec<u8> },
    Trunc(u64),
}

#[derive(Clone, Debug)]
pub enum DOp {
    Add(String, Ino),
    Del(String),
    Ren(String, String, Ino),
}

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub dir: bool,
    pub data: Vec<u8>,
    pub d_data: Vec<u8>,
    pub pend: Vec<FOp>,
    pub entries: BTreeMap<String, Ino>,
    pub d_entries: BTreeMap<String, Ino>,
    pub dpend: Vec<DOp>,
}

#[derive(Clone, Debug)]
pub struct Disk {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum CrashModel {
    /// the process dies, the operating system lives: everything written stays
    Kill,
    /// power loss, nothing unsynced survives
    LoseUnsynced,
    /// power loss, a random part of what is unsynced survives (per directory a
    /// prefix of its entry operations, per file a prefix of its writes with the
    /// next one torn, or the full length with unwritten ranges zeroed)
    Random,
}

impl Default for Disk {
    fn default() -> Self {
        let mut inodes = BTreeMap::new();
        inodes.insert(
            ROOT,
            Inode {
                dir: true,
                ..Default::default()
            },
        );
        Disk { inodes, next: 2 }
    }
}

fn apply_fop(data: &mut Vec<u8>, op: &FOp, take: usize) {
    match op {
        FOp::Write { off, data: d } => {
            let d = &d[..take.min(d.len())];
            if d.is_empty() {
                return;
            }
            let off = *off as usize;
            if data.len() < off + d.len() {
                data.resize(off + d.len(), 0);
            }
            data[off..off + d.len()].copy_from_slice(d);
        }
        FOp::Trunc(n) => data.resize(*n as usize, 0),
    }
}

fn apply_dop(e: &mut BTreeMap<String, Ino>, op: &DOp) {
    match op {
        DOp::Add(n, i) => {
            e.insert(n.clone(), *i);
        }
        DOp::Del(n) => {
            e.remove(n);
        }
        DOp::Ren(a, b, i) => {
            e.remove(a);
            e.insert(b.clone(), *i);
        }
    }
}

pub type R<T> = Result<T, i32>;

impl Disk {
    pub fn get(&self, i: Ino) -> &Inode {
        &self.inodes[&i]
    }
    pub fn get_mut(&mut self, i: Ino) -> &mut Inode {
        self.inodes.get_mut(&i).expect("inode")
    }
    fn comps(path: &str) -> Vec<&str> {
        path.split('/').filter(|c| !c.is_empty() && *c != ".").collect()
    }
    /// resolve a path relative to the directory `at`
    pub fn resolve(&self, at: Ino, path: &str) -> R<Ino> {
        let mut cur = at;
        for c in Self::comps(path) {
            if c == ".." {
                return Err(libc::EINVAL);
            }
            let n = self.get(cur);
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            cur = *n.entries.get(c).ok_or(libc::ENOENT)?;
        }
        Ok(cur)
    }
    /// resolve to (directory, last component)
    pub fn resolve_parent(&self, at: Ino, path: &str) -> R<(Ino, String)> {
        let cs = Self::comps(path);
        let (last, init) = match cs.split_last() {
            None => return Err(libc::EEXIST),
            Some(x) => x,
        };
        if last.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = at;
        for c in init {
            let n = self.get(cur);
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            cur = *n.entries.get(*c).ok_or(libc::ENOENT)?;
        }
        if !self.get(cur).dir {
            return Err(libc::ENOTDIR);
        }
        Ok((cur, last.to_string()))
    }
    fn dop(&mut self, dir: Ino, op: DOp) {
        let d = self.get_mut(dir);
        apply_dop(&mut d.entries, &op);
        d.dpend.push(op);
    }
    fn new_inode(&mut self, dir: bool) -> Ino {
        let i = self.next;
        self.next += 1;
        self.inodes.insert(
            i,
            Inode {
                dir,
                ..Default::default()
            },
        );
        i
    }
    pub fn create(&mut self, dir: Ino, name: &str, is_dir: bool) -> R<Ino> {
        if self.get(dir).entries.contains_key(name) {
            return Err(libc::EEXIST);
        }
        let i = self.new_inode(is_dir);
        self.dop(dir, DOp::Add(name.to_string(), i));
        Ok(i)
    }
    pub fn anon(&mut self) -> Ino {
        self.new_inode(false)
    }
    pub fn link(&mut self, ino: Ino, dir: Ino, name: &str) -> R<()> {
        if self.get(dir).entries.contains_key(name) {
            return Err(libc::EEXIST);
        }
        if self.get(ino).dir {
            return Err(libc::EPERM);
        }
        self.dop(dir, DOp::Add(name.to_string(), ino));
        Ok(())
    }
    pub fn unlink(&mut self, dir: Ino, name: &str, rmdir: bool) -> R<()> {
        let i = *self.get(dir).entries.get(name).ok_or(libc::ENOENT)?;
        let n = self.get(i);
        if rmdir {
            if !n.dir {
                return Err(libc::ENOTDIR);
            }
            if !n.entries.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        } else if n.dir {
            return Err(libc::EISDIR);
        }
        self.dop(dir, DOp::Del(name.to_string()));
        Ok(())
    }
    pub fn rename(&mut self, d1: Ino, n1: &str, d2: Ino, n2: &str, noreplace: bool) -> R<()> {
        let i = *self.get(d1).entries.get(n1).ok_or(libc::ENOENT)?;
        if let Some(t) = self.get(d2).entries.get(n2).copied() {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if t == i {
                return Ok(());
            }
            let (a, b) = (self.get(i).dir, self.get(t));
            if a && !b.dir {
                return Err(libc::ENOTDIR);
            }
            if !a && b.dir {
                return Err(libc::EISDIR);
            }
            if b.dir && !b.entries.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
        }
        if d1 == d2 {
            self.dop(d1, DOp::Ren(n1.to_string(), n2.to_string(), i));
        } else {
            self.dop(d2, DOp::Add(n2.to_string(), i));
            self.dop(d1, DOp::Del(n1.to_string()));
        }
        Ok(())
    }
    pub fn write_at(&mut self, i: Ino, off: u64, d: &[u8]) {
        let n = self.get_mut(i);
        let op = FOp::Write {
            off,
            data: d.to_vec(),
        };
        apply_fop(&mut n.data, &op, usize::MAX);
        n.pend.push(op);
    }
    pub fn truncate(&mut self, i: Ino, len: u64) {
        let n = self.get_mut(i);
        if n.data.len() as u64 == len && n.pend.is_empty() {
            return;
        }
        let op = FOp::Trunc(len);
        apply_fop(&mut n.data, &op, 0);
        n.pend.push(op);
    }
    pub fn fsync(&mut self, i: Ino) {
        let n = self.get_mut(i);
        if n.dir {
            n.d_entries = n.entries.clone();
            n.dpend.clear();
        } else {
            n.d_data = n.data.clone();
            n.pend.clear();
        }
    }
    /// number of operations that are visible but not durable
    pub fn unsynced(&self) -> usize {
        self.inodes.values().map(|n| n.pend.len() + n.dpend.len()).sum()
    }
    fn settle(&mut self) {
        let mut live = BTreeSet::new();
        let mut todo = vec![ROOT];
        while let Some(i) = todo.pop() {
            if live.insert(i) {
                todo.extend(self.get(i).entries.values().copied());
            }
        }
        self.inodes.retain(|i, _| live.contains(i));
        for n in self.inodes.values_mut() {
            n.d_entries = n.entries.clone();
            n.dpend.clear();
            n.d_data = n.data.clone();
            n.pend.clear();
        }
    }
    /// What a reboot finds on the disk.
    pub fn sync_all(&mut self) {
        for n in self.inodes.values_mut() {
            n.d_entries = n.entries.clone();
            n.d_data = n.data.clone();
            n.dpend.clear();
            n.pend.clear();
        }
    }
    pub fn crash(&self, model: CrashModel, rng: &mut Rng) -> Disk {
        let mut d = self.clone();
        match model {
            CrashModel::Kill => {}
            CrashModel::LoseUnsynced => {
                for n in d.inodes.values_mut() {
                    n.entries = n.d_entries.clone();
                    n.data = n.d_data.clone();
                }
            }
            CrashModel::Random => {
                // how eager the disk was, per crash
                let style = rng.below(4);
                for n in d.inodes.values_mut() {
                    if n.dir {
                        let k = match style {
                            0 => n.dpend.len() as u64, // metadata all there, data not
                            1 => 0,
                            _ => rng.below(n.dpend.len() as u64 + 1),
                        } as usize;
                        let mut e = n.d_entries.clone();
                        for op in &n.dpend[..k] {
                            apply_dop(&mut e, op);
                        }
                        n.entries = e;
                    } else {
                        let mut data = n.d_data.clone();
                        let len = n.pend.len();
                        match rng.below(5) {
                            0 => {}
                            1 => data = n.data.clone(),
                            2 => {
                                // length survived, the unsynced bytes did not
                                for op in &n.pend {
                                    let z = match op {
                                        FOp::Write { off, data } => FOp::Write {
                                            off: *off,
                                            data: if rng.one_in(2) {
                                                vec![0; data.len()]
                                            } else {
                                                data.clone()
                                            },
                                        },
                                        t => t.clone(),
                                    };
                                    apply_fop(&mut data, &z, usize::MAX);
                                }
                            }
                            _ => {
                                let k = rng.below(len as u64 + 1) as usize;
                                for op in &n.pend[..k] {
                                    apply_fop(&mut data, op, usize::MAX);
                                }
                                if k < len {
                                    if let FOp::Write { data: w, .. } = &n.pend[k] {
                                        let t = rng.below(w.len() as u64 + 1) as usize;
                                        apply_fop(&mut data, &n.pend[k], t);
                                    }
                                }
                            }
                        }
                        n.data = data;
                    }
                }
            }
        }
        d.settle();
        d
    }

    pub fn to_bytes(&self) -> Vec<u8> {
        let mut w = W(Vec::new());
        w.u(self.next);
        w.u(self.inodes.len() as u64);
        for (i, n) in &self.inodes {
            w.u(*i);
            w.u(n.dir as u64);
            w.b(&n.data);
            w.b(&n.d_data);
            w.u(n.pend.len() as u64);
            for p in &n.pend {
                match p {
                    FOp::Write { off, data } => {
                        w.u(0);
                        w.u(*off);
                        w.b(data);
                    }
                    FOp::Trunc(l) => {
                        w.u(1);
                        w.u(*l);
                    }
                }
            }
            for e in [&n.entries, &n.d_entries] {
                w.u(e.len() as u64);
                for (k, v) in e {
                    w.b(k.as_bytes());
                    w.u(*v);
                }
            }
            w.u(n.dpend.len() as u64);
            for p in &n.dpend {
                match p {
                    DOp::Add(a, i) => {
                        w.u(0);
                        w.b(a.as_bytes());
                        w.u(*i);
                    }
                    DOp::Del(a) => {
                        w.u(1);
                        w.b(a.as_bytes());
                    }
                    DOp::Ren(a, b, i) => {
                        w.u(2);
                        w.b(a.as_bytes());
                        w.b(b.as_bytes());
                        w.u(*i);
                    }
                }
            }
        }
        w.0
    }
    pub fn from_bytes(b: &[u8]) -> Disk {
        let mut r = Rd(b);
        let next = r.u();
        let n = r.u();
        let mut inodes = BTreeMap::new();
        for _ in 0..n {
            let i = r.u();
            let mut nd = Inode {
                dir: r.u() != 0,
                data: r.b(),
                d_data: r.b(),
                ..Default::default()
            };
            for _ in 0..r.u() {
                let k = r.u();
                nd.pend.push(if k == 0 {
                    FOp::Write {
                        off: r.u(),
                        data: r.b(),
                    }
                } else {
                    FOp::Trunc(r.u())
                });
            }
            for which in 0..2 {
                for _ in 0..r.u() {
                    let k = r.s();
                    let v = r.u();
                    if which == 0 {
                        nd.entries.insert(k, v);
                    } else {
                        nd.d_entries.insert(k, v);
                    }
                }
            }
            for _ in 0..r.u() {
                let k = r.u();
                nd.dpend.push(match k {
                    0 => DOp::Add(r.s(), r.u()),
                    1 => DOp::Del(r.s()),
                    _ => DOp::Ren(r.s(), r.s(), r.u()),
                });
            }
            inodes.insert(i, nd);
        }
        Disk { inodes, next }
    }
    /// a listing for traces
    pub fn listing(&self) -> Vec<String> {
        fn go(d: &Disk, i: Ino, p: String, out: &mut Vec<String>) {
            for (k, v) in &d.get(i).entries {
                let q = format!("{p}/{k}");
                if d.get(*v).dir {
                    out.push(format!("{q}/"));
                    go(d, *v, q, out);
                } else {
                    out.push(format!("{q} ({} bytes)", d.get(*v).data.len()));
                }
            }
        }
        let mut out = vec![];
        go(self, ROOT, String::new(), &mut out);
        out
    }
}

struct W(Vec<u8>);
impl W {
    fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x);
    }
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn s(&mut self) -> String {
        String::from_utf8(self.b()).unwrap()
    }
}
