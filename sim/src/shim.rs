//! Interposed libc entry points.
//!
//! The executable defines these symbols itself, so the unmodified terminus-store,
//! tokio, rayon, parking_lot, std, fs2, tempfile... all end up here. Calls from
//! simulated threads go to the scheduler and the in-memory file system; anything
//! else (the driver, paths outside the simulated prefix) goes to the kernel.

use crate::prng::Rng;
use crate::sched::{self, active, block, count, event, hash_str, point, raw6, sim, NoPreempt, St, NO_DEADLINE, REAL_BASE};
use crate::vfs::{Disk, Ino, ROOT};
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::ffi::CStr;

pub const PREFIX: &str = "/simfs";
const FD0: c_int = 1_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Io {
    Open,
    Create,
    Read,
    Write,
    Fsync,
    DirFsync,
    Rename,
    Unlink,
    Mkdir,
    Link,
    Trunc,
    Stat,
    Readdir,
    Flock,
    Seek,
    Close,
}
pub const IO_NAMES: [&str; 16] = [
    "open", "create", "read", "write", "fsync", "dir_fsync", "rename", "unlink", "mkdir", "link", "truncate", "stat",
    "readdir", "flock", "seek", "close",
];

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum FaultKind {
    /// the process stops here; for a write, `frac`/256 of it happens first
    Crash { frac: u8 },
    Errno(i32),
    /// a read or write transfers only part
    Short,
    /// the call takes this long
    Stall(u64),
    /// the call hangs this long while everyone else goes on, then the process stops
    LateCrash(u64),
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Fault {
    /// index of the first affected file-system call of the incarnation
    pub at: u64,
    /// how many calls of this class in a row are affected from there on
    pub len: u64,
    pub kind: FaultKind,
}

/// where the part of a file starts in a site
pub const PART: u32 = 26;

struct Ofd {
    ino: Ino,
    off: u64,
    append: bool,
    refs: u32,
    lock: u8, // 0 none 1 shared 2 exclusive
    dir_path: String,
}

struct DirStream {
    fd: c_int,
    list: Vec<(String, Ino, bool)>,
    pos: usize,
    ent: libc::dirent64,
}

pub struct Fs {
    pub disk: Disk,
    fds: BTreeMap<c_int, usize>,
    ofds: BTreeMap<usize, Ofd>,
    next_ofd: usize,
    dirs: BTreeMap<usize, Box<DirStream>>,
    pub io: u64,
    /// one word per call: its kind in the low four bits, its site above
    pub log: Vec<u32>,
    /// calls that found somebody else had been there first
    pub odd: Vec<u64>,
    /// how many calls of each kind a file has had since it was opened, by hash
    seen: Vec<[u8; 17]>,
    site_memo: BTreeMap<u32, u32>,
    /// what the last client to start something is doing
    pub tag: u32,
    pub faults: Vec<Fault>,
    armed: Vec<(Io, u64, FaultKind)>,
    pub fired: Vec<(u64, Io, FaultKind)>,
    pub rng: Rng,
    /// faults apply only while this is set
    pub faults_on: bool,
    pub last_io_desc: String,
    /// scheduler steps at which an injected error was returned
    pub errno_steps: Vec<u64>,
}

static mut FS: *mut Fs = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { &mut *FS }
}
pub fn fs_start(disk: Disk, faults: Vec<Fault>, seed: u64) {
    unsafe {
        FS = Box::into_raw(Box::new(Fs {
            disk,
            fds: BTreeMap::new(),
            ofds: BTreeMap::new(),
            next_ofd: 1,
            dirs: BTreeMap::new(),
            io: 0,
            log: Vec::new(),
            odd: Vec::new(),
            seen: vec![[0; 17]; 4096],
            site_memo: BTreeMap::new(),
            tag: 0,
            faults,
            armed: Vec::new(),
            fired: Vec::new(),
            rng: Rng::new(seed),
            faults_on: true,
            last_io_desc: String::new(),
            errno_steps: Vec::new(),
        }));
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn err(e: c_int) -> c_int {
    set_errno(e);
    -1
}
unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static mut P: usize = 0;
        if P == 0 {
            P = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
        }
        std::mem::transmute::<usize, $t>(P)
    }};
}

/// The part of a simulated path after the prefix.
unsafe fn simpath<'a>(p: *const c_char) -> Option<&'a str> {
    if !active() || p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.starts_with(PREFIX.as_bytes()) && (b.len() == PREFIX.len() || b[PREFIX.len()] == b'/') {
        std::str::from_utf8(&b[PREFIX.len()..]).ok()
    } else {
        None
    }
}
fn is_simfd(fd: c_int) -> bool {
    fd >= FD0 && active()
}
/// (directory inode, relative path) for an at-style call on the simulated fs
unsafe fn at<'a>(dfd: c_int, p: *const c_char) -> Option<(Ino, &'a str)> {
    if let Some(s) = simpath(p) {
        return Some((ROOT, s));
    }
    if is_simfd(dfd) && !p.is_null() {
        let b = CStr::from_ptr(p).to_bytes();
        if b.first() != Some(&b'/') {
            let ino = fs().ofd(dfd)?.ino;
            return Some((ino, std::str::from_utf8(b).ok()?));
        }
    }
    None
}

impl Fs {
    fn ofd(&mut self, fd: c_int) -> Option<&mut Ofd> {
        let i = *self.fds.get(&fd)?;
        self.ofds.get_mut(&i)
    }
    fn new_fd(&mut self, ofd: usize) -> c_int {
        let mut fd = FD0;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, ofd);
        fd
    }
    fn open_ofd(&mut self, ino: Ino, append: bool, path: String) -> c_int {
        let i = self.next_ofd;
        self.next_ofd += 1;
        self.ofds.insert(
            i,
            Ofd {
                ino,
                off: 0,
                append,
                refs: 1,
                lock: 0,
                dir_path: path,
            },
        );
        self.new_fd(i)
    }
    /// Calls of one kind, on files of one sort, early or late in the life of the
    /// file, while clients do the same thing, are one site: faults are spread
    /// over sites rather than over calls.
    fn site(&mut self, class: Io, wh: u64, w: &str) -> u32 {
        let wh = wh as u32;
        let slot = &mut self.seen[(wh & 4095) as usize];
        if matches!(class, Io::Open | Io::Create) {
            // the last one counts how often the file was opened
            let opened = (slot[16] + 1).min(63);
            *slot = [0; 17];
            slot[16] = opened;
        }
        let opened = slot[16] as u32;
        let n = &mut slot[class as usize];
        *n = (*n + 1).min(3);
        let n = *n;
        let c = match self.site_memo.get(&wh) {
            Some(c) => *c,
            None => {
                let c = hash_str(&path_class(w)) as u32;
                self.site_memo.insert(wh, c);
                c
            }
        };
        let h = crate::prng::mix(((c as u64) << 32) | self.tag as u64, n as u64) as u32;
        // archives are opened again for every part that is read
        let part = if class == Io::Read { opened << PART } else { 0 };
        part | ((h << 4) & ((1 << PART) - 1)) | class as u32
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    pub fn held_locks(&self) -> usize {
        self.ofds.values().filter(|o| o.lock != 0).count()
    }
}

/// a path with names of layers, temporary files and graphs taken out
fn path_class(w: &str) -> String {
    let mut out = String::new();
    for part in w.split('/') {
        let hexes = part.chars().take_while(|c| c.is_ascii_hexdigit()).count();
        if hexes >= 20 {
            out.push('#');
            out.push_str(&part[hexes..].chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        } else if hexes == 3 && part.len() == 3 {
            out.push('p');
        } else {
            out.extend(part.chars().filter(|c| !c.is_ascii_digit()));
        }
        out.push('/');
    }
    out
}

enum Act {
    Go,
    Errno(i32),
    Short,
    /// crash after transferring this fraction of the write
    Crash(u8),
}

/// Entry of every file-system call: preemption point, latency, fault decision.
fn io(class: Io, what: impl Fn() -> String) -> Act {
    point();
    let s = sim();
    {
        let den = s.cfg.delay_den;
        if den != 0 && s.rng.one_in(den) {
            let d = s.rng.below(s.cfg.delay_max + 1);
            let until = s.now + d;
            count("latency", 1);
            sched::sleep_until(until);
        }
    }
    let _g = NoPreempt::new();
    let f = fs();
    let idx = f.io;
    f.io += 1;
    let w = what();
    let wh = hash_str(&w);
    let site = f.site(class, wh, &w);
    f.log.push(site);
    event(IO_NAMES[class as usize], idx, wh, || w.clone());
    if f.faults.is_empty() && f.armed.is_empty() {
        return Act::Go;
    }
    f.last_io_desc = format!("#{idx} {} {w}", IO_NAMES[class as usize]);
    if !f.faults_on {
        return Act::Go;
    }
    let mut kind = None;
    if let Some(p) = f.armed.iter().position(|a| a.0 == class) {
        kind = Some(f.armed[p].2.clone());
        f.armed[p].1 -= 1;
        if f.armed[p].1 == 0 {
            f.armed.remove(p);
        }
    } else if let Some(p) = f.faults.iter().position(|x| x.at == idx) {
        let x = f.faults.remove(p);
        if x.len > 1 {
            f.armed.push((class, x.len - 1, x.kind.clone()));
        }
        kind = Some(x.kind);
    }
    let kind = match kind {
        None => return Act::Go,
        Some(k) => k,
    };
    // not every fault makes sense at every call
    let applicable = match &kind {
        FaultKind::Short => matches!(class, Io::Read | Io::Write),
        FaultKind::Errno(_) => !matches!(class, Io::Seek | Io::Close),
        _ => true,
    };
    if !applicable {
        return Act::Go;
    }
    f.fired.push((idx, class, kind.clone()));
    event("FAULT", idx, 0, || format!("{kind:?}"));
    match kind {
        FaultKind::Crash { frac } => {
            if class == Io::Write {
                Act::Crash(frac)
            } else {
                drop(_g);
                sched::stop_now(sched::Stop::Crashed)
            }
        }
        FaultKind::Errno(e) => {
            f.errno_steps.push(s.steps);
            Act::Errno(errno_for(class, e))
        }
        FaultKind::Short => Act::Short,
        FaultKind::LateCrash(d) => {
            drop(_g);
            let until = sim().now + d;
            sched::sleep_until(until);
            sched::stop_now(sched::Stop::Crashed)
        }
        FaultKind::Stall(d) => {
            drop(_g);
            let until = sim().now + d;
            sched::sleep_until(until);
            Act::Go
        }
    }
}

/// keep injected errors plausible for the call they hit
fn errno_for(class: Io, e: i32) -> i32 {
    match class {
        Io::Read | Io::Stat | Io::Readdir | Io::Open if e == libc::ENOSPC => libc::EIO,
        Io::Write | Io::Fsync | Io::DirFsync | Io::Read if e == libc::EMFILE || e == libc::EACCES => libc::EIO,
        Io::Flock => libc::ENOLCK,
        _ => e,
    }
}

macro_rules! fail {
    ($act:expr) => {
        match $act {
            Act::Errno(e) => return err(e) as _,
            _ => {}
        }
    };
}

// ------------------------------------------------------------------ open/close

unsafe fn do_open(dir: Ino, path: &str, flags: c_int) -> c_int {
    let creat = flags & libc::O_CREAT != 0;
    let a = io(if creat { Io::Create } else { Io::Open }, || format!("{path} flags={flags:#x}"));
    fail!(a);
    let g = NoPreempt::new();
    let f = fs();
    if flags & libc::O_TMPFILE == libc::O_TMPFILE {
        return err(libc::EOPNOTSUPP);
    }
    let ino = match f.disk.resolve(dir, path) {
        Ok(i) => {
            if creat && flags & libc::O_EXCL != 0 {
                return err(libc::EEXIST);
            }
            let n = f.disk.get(i);
            let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
            if n.dir && (wr || creat) {
                return err(libc::EISDIR);
            }
            if !n.dir && flags & libc::O_DIRECTORY != 0 {
                return err(libc::ENOTDIR);
            }
            if !n.dir && path.ends_with('/') {
                return err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && wr && !n.data.is_empty() {
                f.disk.truncate(i, 0);
            }
            i
        }
        Err(e) if e == libc::ENOENT && creat => match f.disk.resolve_parent(dir, path) {
            Err(e) => return err(e),
            Ok((d, n)) => match f.disk.create(d, &n, false) {
                Err(e) => return err(e),
                Ok(i) => i,
            },
        },
        Err(e) => return err(e),
    };
    let fd = f.open_ofd(ino, flags & libc::O_APPEND != 0, path.to_string());
    drop(g);
    point();
    fd
}

#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some((d, s)) = at(dfd, p) {
        return do_open(d, s, flags);
    }
    raw(libc::SYS_openat, dfd as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(dfd, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    openat(libc::AT_FDCWD, p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}

unsafe fn drop_ref(i: usize) {
    let f = fs();
    let o = f.ofds.get_mut(&i).unwrap();
    o.refs -= 1;
    if o.refs == 0 {
        let (ino, lock) = (o.ino, o.lock);
        f.ofds.remove(&i);
        if lock != 0 {
            event("unlock", ino, 0, || format!("inode {ino} (close)"));
            sched::wake_flock(ino);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_simfd(fd) {
        if !fs().fds.contains_key(&fd) {
            return err(libc::EBADF);
        }
        let _ = io(Io::Close, || String::new());
        {
            let _g = NoPreempt::new();
            let i = match fs().fds.remove(&fd) {
                None => return err(libc::EBADF),
                Some(i) => i,
            };
            drop_ref(i);
        }
        point();
        return 0;
    }
    raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn do_dup(fd: c_int) -> c_int {
    let _g = NoPreempt::new();
    let f = fs();
    match f.fds.get(&fd).copied() {
        None => err(libc::EBADF),
        Some(i) => {
            f.ofds.get_mut(&i).unwrap().refs += 1;
            f.new_fd(i)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if is_simfd(fd) {
        return do_dup(fd);
    }
    raw(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if is_simfd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => do_dup(fd),
            libc::F_GETFD => {
                if fs().fds.contains_key(&fd) {
                    libc::FD_CLOEXEC
                } else {
                    err(libc::EBADF)
                }
            }
            libc::F_SETFD | libc::F_SETFL => 0,
            libc::F_GETFL => libc::O_RDWR,
            _ => err(libc::EINVAL),
        };
    }
    raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if is_simfd(fd) {
        return err(libc::ENOTTY);
    }
    raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ data

unsafe fn name_of(fd: c_int) -> String {
    match fs().ofd(fd) {
        None => "?".into(),
        Some(o) => o.dir_path.clone(),
    }
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, off: Option<u64>) -> ssize_t {
    let a = io(Io::Read, || name_of(fd));
    fail!(a);
    let _g = NoPreempt::new();
    let f = fs();
    let (ino, pos) = match f.ofd(fd) {
        None => return err(libc::EBADF) as ssize_t,
        Some(o) => (o.ino, off.unwrap_or(o.off)),
    };
    let nd = f.disk.get(ino);
    if nd.dir {
        return err(libc::EISDIR) as ssize_t;
    }
    let len = nd.data.len() as u64;
    let avail = len.saturating_sub(pos).min(n as u64) as usize;
    let mut take = avail;
    if let Act::Short = a {
        if avail > 1 {
            take = 1 + fs().rng.below(avail as u64 - 1) as usize;
        }
    }
    if take > 0 {
        std::ptr::copy_nonoverlapping(nd.data[pos as usize..].as_ptr(), buf, take);
    }
    if off.is_none() {
        fs().ofd(fd).unwrap().off += take as u64;
    }
    take as ssize_t
}
unsafe fn do_write(fd: c_int, bufs: &[(*const u8, usize)], off: Option<u64>) -> ssize_t {
    let a = io(Io::Write, || name_of(fd));
    fail!(a);
    let g = NoPreempt::new();
    let f = fs();
    let (ino, pos, app) = match f.ofd(fd) {
        None => return err(libc::EBADF) as ssize_t,
        Some(o) => (o.ino, off.unwrap_or(o.off), o.append),
    };
    let pos = if app { f.disk.get(ino).data.len() as u64 } else { pos };
    let mut all = Vec::new();
    for (p, l) in bufs {
        if *l > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(*p, *l));
        }
    }
    let mut n = all.len();
    match a {
        Act::Short if n > 1 => n = 1 + f.rng.below(n as u64 - 1) as usize,
        Act::Crash(fr) => n = n * fr as usize / 256,
        _ => {}
    }
    if n > 0 {
        f.disk.write_at(ino, pos, &all[..n]);
    }
    if let Act::Crash(_) = a {
        sched::stop_now(sched::Stop::Crashed);
    }
    if off.is_none() {
        f.ofd(fd).unwrap().off = pos + n as u64;
    }
    drop(all);
    drop(g);
    point();
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if is_simfd(fd) {
        return do_read(fd, buf as *mut u8, n, None);
    }
    raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if is_simfd(fd) {
        return do_read(fd, buf as *mut u8, n, Some(off as u64));
    }
    raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_simfd(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return do_read(fd, v.iov_base as *mut u8, v.iov_len, None);
            }
        }
        return 0;
    }
    raw(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if is_simfd(fd) {
        return do_write(fd, &[(buf as *const u8, n)], None);
    }
    let r = raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0);
    if active() {
        // an eventfd or pipe was written: whoever polls looks again
        sched::wake_epoll();
        point();
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if is_simfd(fd) {
        return do_write(fd, &[(buf as *const u8, n)], Some(off as u64));
    }
    raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_simfd(fd) {
        let mut v = Vec::new();
        for i in 0..n as usize {
            let x = &*iov.add(i);
            v.push((x.iov_base as *const u8, x.iov_len));
        }
        return do_write(fd, &v, None);
    }
    raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, wh: c_int) -> off_t {
    if is_simfd(fd) {
        let _ = io(Io::Seek, || String::new());
        let _g = NoPreempt::new();
        let f = fs();
        let (ino, cur) = match f.ofd(fd) {
            None => return err(libc::EBADF) as off_t,
            Some(o) => (o.ino, o.off),
        };
        let base = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => cur as i64,
            libc::SEEK_END => f.disk.get(ino).data.len() as i64,
            _ => return err(libc::EINVAL) as off_t,
        };
        let n = base + off;
        if n < 0 {
            return err(libc::EINVAL) as off_t;
        }
        f.ofd(fd).unwrap().off = n as u64;
        return n;
    }
    raw(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, wh: c_int) -> off_t {
    lseek64(fd, off, wh)
}
unsafe fn do_fsync(fd: c_int) -> c_int {
    let ino = match fs().ofd(fd) {
        None => return err(libc::EBADF),
        Some(o) => o.ino,
    };
    let dir = fs().disk.get(ino).dir;
    let a = io(if dir { Io::DirFsync } else { Io::Fsync }, || name_of(fd));
    fail!(a);
    {
        let _g = NoPreempt::new();
        fs().disk.fsync(ino);
    }
    point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if is_simfd(fd) {
        return do_fsync(fd);
    }
    raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if is_simfd(fd) {
        return do_fsync(fd);
    }
    raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    if is_simfd(fd) {
        let a = io(Io::Trunc, || name_of(fd));
        fail!(a);
        let _g = NoPreempt::new();
        let ino = match fs().ofd(fd) {
            None => return err(libc::EBADF),
            Some(o) => o.ino,
        };
        fs().disk.truncate(ino, len as u64);
        return 0;
    }
    raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, len: off_t) -> c_int {
    if let Some((d, s)) = at(-1, p) {
        let a = io(Io::Trunc, || s.to_string());
        fail!(a);
        let _g = NoPreempt::new();
        return match fs().disk.resolve(d, s) {
            Err(e) => err(e),
            Ok(i) => {
                fs().disk.truncate(i, len as u64);
                0
            }
        };
    }
    raw(libc::SYS_truncate, p as usize, len as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off_t, len: off_t) -> c_int {
    if is_simfd(fd) {
        return err(libc::EOPNOTSUPP);
    }
    raw(libc::SYS_fallocate, fd as usize, mode as usize, off as usize, len as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off_t, len: off_t) -> c_int {
    if is_simfd(fd) {
        return libc::EOPNOTSUPP;
    }
    fallocate64(fd, 0, off, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, off: off_t, len: off_t, adv: c_int) -> c_int {
    if is_simfd(fd) {
        return 0;
    }
    raw(libc::SYS_fadvise64, fd as usize, off as usize, len as usize, adv as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut off_t,
    b: c_int,
    bo: *mut off_t,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    if is_simfd(a) || is_simfd(b) {
        return err(libc::EXDEV) as ssize_t;
    }
    raw(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, n, fl as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> ssize_t {
    if is_simfd(o) || is_simfd(i) {
        return err(libc::EINVAL) as ssize_t;
    }
    raw(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(
    addr: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off_t,
) -> *mut c_void {
    if is_simfd(fd) {
        let _ = io(Io::Read, || name_of(fd));
        let _g = NoPreempt::new();
        let ino = match fs().ofd(fd) {
            None => {
                set_errno(libc::EBADF);
                return libc::MAP_FAILED;
            }
            Some(o) => o.ino,
        };
        // a private snapshot of the file
        let p = raw(
            libc::SYS_mmap,
            0,
            len,
            (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize,
            usize::MAX,
            0,
        ) as *mut u8;
        if p as isize == -1 {
            return libc::MAP_FAILED;
        }
        let d = &fs().disk.get(ino).data;
        let off = off as usize;
        if off < d.len() {
            let n = (d.len() - off).min(len);
            std::ptr::copy_nonoverlapping(d[off..].as_ptr(), p, n);
        }
        return p as *mut c_void;
    }
    raw(libc::SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as usize, off as usize) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(
    addr: *mut c_void,
    len: size_t,
    prot: c_int,
    flags: c_int,
    fd: c_int,
    off: off_t,
) -> *mut c_void {
    mmap64(addr, len, prot, flags, fd, off)
}

// ------------------------------------------------------------------ metadata

unsafe fn fill(ino: Ino, st: *mut libc::stat64) {
    let n = fs().disk.get(ino);
    *st = std::mem::zeroed();
    let s = &mut *st;
    s.st_ino = ino;
    s.st_dev = 4242;
    s.st_nlink = 1;
    s.st_mode = if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    s.st_size = n.data.len() as i64;
    s.st_blksize = 4096;
    s.st_mtime = 1_700_000_000;
    s.st_uid = 0;
}
unsafe fn stat_ino(ino: Result<Ino, i32>, st: *mut libc::stat64) -> c_int {
    match ino {
        Err(e) => err(e),
        Ok(i) => {
            fill(i, st);
            0
        }
    }
}
unsafe fn path_stat(d: Ino, s: &str, st: *mut libc::stat64) -> c_int {
    let a = io(Io::Stat, || s.to_string());
    fail!(a);
    let _g = NoPreempt::new();
    stat_ino(fs().disk.resolve(d, s), st)
}
unsafe fn fd_stat(fd: c_int, st: *mut libc::stat64) -> c_int {
    let a = io(Io::Stat, || name_of(fd));
    fail!(a);
    let _g = NoPreempt::new();
    stat_ino(fs().ofd(fd).map(|o| o.ino).ok_or(libc::EBADF), st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match at(-1, p) {
        Some((d, s)) => path_stat(d, s, st),
        None => raw(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, st as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match at(-1, p) {
        Some((d, s)) => path_stat(d, s, st),
        None => raw(
            libc::SYS_newfstatat,
            libc::AT_FDCWD as usize,
            p as usize,
            st as usize,
            libc::AT_SYMLINK_NOFOLLOW as usize,
            0,
            0,
        ) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if is_simfd(fd) {
        return fd_stat(fd, st);
    }
    raw(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dfd: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if is_simfd(dfd) && !p.is_null() && *p == 0 && fl & libc::AT_EMPTY_PATH != 0 {
        return fd_stat(dfd, st);
    }
    match at(dfd, p) {
        Some((d, s)) => path_stat(d, s, st),
        None => raw(libc::SYS_newfstatat, dfd as usize, p as usize, st as usize, fl as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(dfd: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    fstatat64(dfd, p, st, fl)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let sim_empty = is_simfd(dfd) && (p.is_null() || *p == 0);
    let target = if sim_empty { None } else { at(dfd, p) };
    if !sim_empty && target.is_none() {
        return raw(libc::SYS_statx, dfd as usize, p as usize, fl as usize, mask as usize, out as usize, 0) as c_int;
    }
    let mut st: libc::stat64 = std::mem::zeroed();
    let r = if sim_empty {
        fd_stat(dfd, &mut st)
    } else {
        let (d, s) = target.unwrap();
        path_stat(d, s, &mut st)
    };
    if r != 0 {
        return r;
    }
    *out = std::mem::zeroed();
    let o = &mut *out;
    o.stx_mask = libc::STATX_BASIC_STATS;
    o.stx_mode = st.st_mode as u16;
    o.stx_size = st.st_size as u64;
    o.stx_ino = st.st_ino;
    o.stx_nlink = 1;
    o.stx_blksize = 4096;
    o.stx_mtime.tv_sec = st.st_mtime;
    o.stx_dev_major = 42;
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match at(-1, p) {
        Some((d, s)) => {
            let mut st: libc::stat64 = std::mem::zeroed();
            path_stat(d, s, &mut st)
        }
        None => raw(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(dfd: c_int, p: *const c_char, mode: c_int, _fl: c_int) -> c_int {
    match at(dfd, p) {
        Some((d, s)) => {
            let mut st: libc::stat64 = std::mem::zeroed();
            path_stat(d, s, &mut st)
        }
        None => raw(libc::SYS_faccessat, dfd as usize, p as usize, mode as usize, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    match at(-1, p) {
        Some(_) => 0,
        None => raw(libc::SYS_chmod, p as usize, mode as usize, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if is_simfd(fd) {
        return 0;
    }
    raw(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    if is_simfd(fd) {
        return 0;
    }
    raw(libc::SYS_utimensat, fd as usize, 0, t as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match at(-1, p) {
        Some(_) => err(libc::EINVAL) as ssize_t,
        None => raw(libc::SYS_readlink, p as usize, b as usize, n, 0, 0, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some((d, s)) = at(-1, p) {
        if let Err(e) = fs().disk.resolve(d, s) {
            set_errno(e);
            return std::ptr::null_mut();
        }
        if out.is_null() {
            return libc::strdup(p);
        }
        libc::strcpy(out, p);
        return out;
    }
    let f = real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    f(p, out)
}

// ------------------------------------------------------------------ namespace

#[no_mangle]
pub unsafe extern "C" fn mkdirat(dfd: c_int, p: *const c_char, mode: mode_t) -> c_int {
    if let Some((d, s)) = at(dfd, p) {
        let a = io(Io::Mkdir, || s.to_string());
        fail!(a);
        let r = {
            let _g = NoPreempt::new();
            let f = fs();
            match f.disk.resolve_parent(d, s).and_then(|(q, n)| f.disk.create(q, &n, true)) {
                Ok(_) => 0,
                Err(e) => err(e),
            }
        };
        let e = *libc::__errno_location();
        point();
        set_errno(e);
        return r;
    }
    raw(libc::SYS_mkdirat, dfd as usize, p as usize, mode as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    mkdirat(libc::AT_FDCWD, p, mode)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_uint) -> c_int {
    match (at(d1, a), at(d2, b)) {
        (Some((x, s)), Some((y, t))) => {
            let act = io(Io::Rename, || format!("{s} -> {t}"));
            fail!(act);
            let r = {
                let _g = NoPreempt::new();
                let f = fs();
                let r = (|| {
                    let (p, n) = f.disk.resolve_parent(x, s)?;
                    let (q, m) = f.disk.resolve_parent(y, t)?;
                    f.disk.rename(p, &n, q, &m, fl & libc::RENAME_NOREPLACE != 0)
                })();
                match r {
                    Ok(()) => 0,
                    Err(e) => {
                        if e == libc::EEXIST || e == libc::ENOTEMPTY {
                            let at = f.io - 1;
                            f.odd.push(at);
                        }
                        err(e)
                    }
                }
            };
            let e = *libc::__errno_location();
            point();
            set_errno(e);
            r
        }
        (None, None) => raw(
            libc::SYS_renameat2,
            d1 as usize,
            a as usize,
            d2 as usize,
            b as usize,
            fl as usize,
            0,
        ) as c_int,
        _ => err(libc::EXDEV),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    renameat2(d1, a, d2, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat2(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dfd: c_int, p: *const c_char, fl: c_int) -> c_int {
    if let Some((d, s)) = at(dfd, p) {
        let a = io(Io::Unlink, || s.to_string());
        fail!(a);
        let r = {
            let _g = NoPreempt::new();
            let f = fs();
            match f
                .disk
                .resolve_parent(d, s)
                .and_then(|(q, n)| f.disk.unlink(q, &n, fl & libc::AT_REMOVEDIR != 0))
            {
                Ok(()) => 0,
                Err(e) => err(e),
            }
        };
        let e = *libc::__errno_location();
        point();
        set_errno(e);
        return r;
    }
    raw(libc::SYS_unlinkat, dfd as usize, p as usize, fl as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, p, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    match (at(d1, a), at(d2, b)) {
        (Some((x, s)), Some((y, t))) => {
            let act = io(Io::Link, || format!("{s} -> {t}"));
            fail!(act);
            let r = {
                let _g = NoPreempt::new();
                let f = fs();
                let r = (|| {
                    let i = f.disk.resolve(x, s)?;
                    let (q, m) = f.disk.resolve_parent(y, t)?;
                    f.disk.link(i, q, &m)
                })();
                match r {
                    Ok(()) => 0,
                    Err(e) => err(e),
                }
            };
            let e = *libc::__errno_location();
            point();
            set_errno(e);
            r
        }
        (None, None) => raw(libc::SYS_linkat, d1 as usize, a as usize, d2 as usize, b as usize, fl as usize, 0) as c_int,
        _ => err(libc::EXDEV),
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if at(-1, b).is_some() {
        return err(libc::EPERM);
    }
    raw(libc::SYS_symlinkat, a as usize, libc::AT_FDCWD as usize, b as usize, 0, 0, 0) as c_int
}

// ------------------------------------------------------------------ directories

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    if is_simfd(fd) {
        let _g = NoPreempt::new();
        let f = fs();
        let ino = match f.ofd(fd) {
            None => {
                set_errno(libc::EBADF);
                return std::ptr::null_mut();
            }
            Some(o) => o.ino,
        };
        if !f.disk.get(ino).dir {
            set_errno(libc::ENOTDIR);
            return std::ptr::null_mut();
        }
        let b = Box::new(DirStream {
            fd,
            list: Vec::new(),
            pos: usize::MAX,
            ent: std::mem::zeroed(),
        });
        let p = &*b as *const DirStream as usize;
        f.dirs.insert(p, b);
        return p as *mut libc::DIR;
    }
    let f = real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut libc::DIR);
    f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if let Some((d, s)) = at(-1, p) {
        let fd = do_open(d, s, libc::O_RDONLY | libc::O_DIRECTORY);
        if fd < 0 {
            return std::ptr::null_mut();
        }
        return fdopendir(fd);
    }
    let f = real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR);
    f(p)
}
fn simdir(p: *mut libc::DIR) -> bool {
    active() && fs().dirs.contains_key(&(p as usize))
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(p: *mut libc::DIR) -> *mut libc::dirent64 {
    if simdir(p) {
        let pos = fs().dirs[&(p as usize)].pos;
        // entries arrive in batches, each of which can fail
        if pos == usize::MAX || pos % 4 == 3 {
            let fd = fs().dirs[&(p as usize)].fd;
            let a = io(Io::Readdir, || name_of(fd));
            if let Act::Errno(e) = a {
                set_errno(e);
                return std::ptr::null_mut();
            }
        } else {
            point();
        }
        if pos == usize::MAX {
            let fd = fs().dirs[&(p as usize)].fd;
            let _g = NoPreempt::new();
            let f = fs();
            let ino = f.ofd(fd).unwrap().ino;
            let mut list: Vec<(String, Ino, bool)> =
                f.disk.get(ino).entries.iter().map(|(k, v)| (k.clone(), *v, f.disk.get(*v).dir)).collect();
            // the order of directory entries is the file system's choice
            f.rng.shuffle(&mut list);
            let d = f.dirs.get_mut(&(p as usize)).unwrap();
            d.list = list;
            d.pos = 0;
        }
        let _g = NoPreempt::new();
        let d = fs().dirs.get_mut(&(p as usize)).unwrap();
        if d.pos >= d.list.len() {
            return std::ptr::null_mut();
        }
        let (name, ino, dir) = d.list[d.pos].clone();
        d.pos += 1;
        d.ent = std::mem::zeroed();
        d.ent.d_ino = ino;
        d.ent.d_off = d.pos as i64;
        d.ent.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
        d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
        for (i, b) in name.bytes().take(255).enumerate() {
            d.ent.d_name[i] = b as c_char;
        }
        return &mut d.ent;
    }
    let f = real!("readdir64", unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64);
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(p: *mut libc::DIR) -> c_int {
    if simdir(p) {
        let d = {
            let _g = NoPreempt::new();
            fs().dirs.remove(&(p as usize)).unwrap()
        };
        return close(d.fd);
    }
    let f = real!("closedir", unsafe extern "C" fn(*mut libc::DIR) -> c_int);
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(p: *mut libc::DIR) -> c_int {
    if simdir(p) {
        return fs().dirs[&(p as usize)].fd;
    }
    let f = real!("dirfd", unsafe extern "C" fn(*mut libc::DIR) -> c_int);
    f(p)
}

// ------------------------------------------------------------------ locks

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !is_simfd(fd) {
        return raw(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0) as c_int;
    }
    let a = io(Io::Flock, || format!("{} op={op}", name_of(fd)));
    fail!(a);
    let want = match op & !libc::LOCK_NB {
        libc::LOCK_SH => 1u8,
        libc::LOCK_EX => 2,
        libc::LOCK_UN => 0,
        _ => return err(libc::EINVAL),
    };
    loop {
        let (mine, ino) = match fs().fds.get(&fd) {
            None => return err(libc::EBADF),
            Some(i) => (*i, fs().ofds[i].ino),
        };
        let _g = NoPreempt::new();
        if want == 0 {
            fs().ofds.get_mut(&mine).unwrap().lock = 0;
            event("unlock", ino, 0, || format!("inode {ino}"));
            sched::wake_flock(ino);
            break;
        }
        // converting a lock releases it first
        let had = fs().ofds[&mine].lock;
        let conflict = fs()
            .ofds
            .iter()
            .any(|(i, o)| *i != mine && o.ino == ino && (o.lock == 2 || (o.lock == 1 && want == 2)));
        if !conflict {
            fs().ofds.get_mut(&mine).unwrap().lock = want;
            event("locked", ino, want as u64, || format!("inode {ino} mode {want}"));
            if had != want {
                sched::wake_flock(ino);
            }
            break;
        }
        if op & libc::LOCK_NB != 0 {
            return err(libc::EWOULDBLOCK);
        }
        if had != 0 {
            fs().ofds.get_mut(&mine).unwrap().lock = 0;
            sched::wake_flock(ino);
        }
        count("lock_contention", 1);
        event("lockwait", ino, want as u64, || format!("inode {ino} mode {want}"));
        drop(_g);
        block(St::Flock { ino });
    }
    point();
    0
}

// ------------------------------------------------------------------ threads, time, entropy

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let r = real!("pthread_create", sched::PthreadCreate);
    if active() {
        return sched::thread_create(r, out, attr, f, arg);
    }
    r(out, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if active() {
        return sched::thread_join(t, ret);
    }
    let r = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    r(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if active() {
        return 0;
    }
    let r = real!("pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> c_int);
    r(t)
}
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(
    f: unsafe extern "C" fn(*mut u8),
    o: *mut u8,
    dso: *mut u8,
) -> c_int {
    if active() {
        sched::add_dtor(f, o);
        return 0;
    }
    let r = real!(
        "__cxa_thread_atexit_impl",
        unsafe extern "C" fn(unsafe extern "C" fn(*mut u8), *mut u8, *mut u8) -> c_int
    );
    r(f, o, dso)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if active() {
        if n == libc::SYS_futex {
            let r = sched::futex(a as *const u32, b as i32, c as u32, d as *const libc::timespec, f as u32);
            if r < 0 {
                return err(-r as c_int) as c_long;
            }
            return r as c_long;
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
        }
        if n == libc::SYS_statx {
            return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
        }
        if n == libc::SYS_renameat2 {
            return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long;
        }
    }
    raw(n, a, b, c, d, e, f) as c_long
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if active() {
        let s = sim();
        for i in 0..n {
            *(p as *mut u8).add(i) = s.entropy.next() as u8;
        }
        return n as ssize_t;
    }
    raw(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    getrandom(p, n, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if active() {
        let s = sim();
        s.now += 50;
        let mut x = s.now;
        if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
            x += REAL_BASE;
        }
        (*t).tv_sec = (x / 1_000_000_000) as i64;
        (*t).tv_nsec = (x % 1_000_000_000) as i64;
        return 0;
    }
    raw(libc::SYS_clock_gettime, id as usize, t as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if active() {
        let x = sim().now + REAL_BASE;
        (*tv).tv_sec = (x / 1_000_000_000) as i64;
        (*tv).tv_usec = (x % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    raw(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        let d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        sched::sleep_until(sim().now + d);
        return 0;
    }
    raw(libc::SYS_nanosleep, t as usize, rem as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    fl: c_int,
    t: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if active() {
        let d = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
        let until = if fl & libc::TIMER_ABSTIME != 0 {
            if id == libc::CLOCK_REALTIME {
                d.saturating_sub(REAL_BASE)
            } else {
                d
            }
        } else {
            sim().now + d
        };
        sched::sleep_until(until);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, id as usize, fl as usize, t as usize, rem as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        sched::yield_now();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if active() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        *(set as *mut u8) = 0x0f; // four processors
        return 0;
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 {
        -1
    } else {
        0
    }
}
unsafe fn do_epoll(ep: c_int, ev: *mut libc::epoll_event, n: c_int, timeout: c_int) -> c_int {
    let start = sim().now;
    let deadline = if timeout < 0 {
        NO_DEADLINE
    } else {
        start + timeout as u64 * 1_000_000
    };
    point();
    loop {
        let r = raw(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, 0, 0, 0);
        if r != 0 || sim().now >= deadline {
            return r as c_int;
        }
        block(St::Epoll { deadline });
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, n: c_int, timeout: c_int) -> c_int {
    if active() {
        return do_epoll(ep, ev, n, timeout);
    }
    raw(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, timeout as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(
    ep: c_int,
    ev: *mut libc::epoll_event,
    n: c_int,
    timeout: c_int,
    sig: *const libc::sigset_t,
) -> c_int {
    if active() {
        return do_epoll(ep, ev, n, timeout);
    }
    raw(libc::SYS_epoll_pwait, ep as usize, ev as usize, n as usize, timeout as usize, sig as usize, 8) as c_int
}
/// std insists on a guard page; our own stacks do not report one
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const libc::pthread_attr_t, g: *mut size_t) -> c_int {
    *g = 4096;
    0
}
