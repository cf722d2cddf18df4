//! The simulated file system: an in-memory tree under `/flatsim`, whose files are memfds so that
//! `mmap` gives real pages. It owns the descriptor table, the mapping table, the mutation log, the
//! fault injector, and the trace of system calls. All state belongs to the one simulating thread.

use crate::rng::mix2;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const ROOT: &str = "/flatsim";

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    OpenCreate,
    OpenRead,
    Write,
    Seek,
    Mkdir,
    Stat,
    Fstat,
    Mmap,
    Read,
    Close,
    Munmap,
    Unlink,
    Rename,
    Trunc,
    Sync,
    List,
    Other,
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::OpenCreate => "open_create",
            Kind::OpenRead => "open_read",
            Kind::Write => "write",
            Kind::Seek => "seek",
            Kind::Mkdir => "mkdir",
            Kind::Stat => "stat",
            Kind::Fstat => "fstat",
            Kind::Mmap => "mmap",
            Kind::Read => "read",
            Kind::Close => "close",
            Kind::Munmap => "munmap",
            Kind::Unlink => "unlink",
            Kind::Rename => "rename",
            Kind::Trunc => "truncate",
            Kind::Sync => "sync",
            Kind::List => "list",
            Kind::Other => "other",
        }
    }
    /// system calls whose failure means that data may not have been stored
    pub fn is_store(self) -> bool {
        match self {
            Kind::OpenCreate | Kind::Write | Kind::Seek | Kind::Mkdir | Kind::Rename | Kind::Trunc => true,
            _ => false,
        }
    }
    pub fn is_load(self) -> bool {
        match self {
            Kind::OpenRead | Kind::Stat | Kind::Fstat | Kind::Mmap | Kind::Read => true,
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// fail once with this errno
    Err(i32),
    /// fail this call and every later one of the same kind within the same operation
    ErrAll(i32),
    /// transfer at most this many bytes
    Short(u64),
    /// every write from here to the end of the operation transfers at most this many bytes
    ShortAll(u64),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub path: String,
    pub len: u64,
    pub injectable: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum MutKind {
    Create { ino: u64, parent: u64, name: String },
    Mkdir { ino: u64, parent: u64, name: String },
    SetLen { ino: u64, len: u64 },
    Write { ino: u64, off: u64, data: Rc<[u8]> },
    Unlink { parent: u64, name: String },
    Rename { parent: u64, name: String, nparent: u64, nname: String },
}

#[derive(Clone, Debug)]
pub struct Mut {
    pub op: u32,
    pub kind: MutKind,
}

struct Ino {
    fd: i32,
    len: u64,
    dir: Option<BTreeMap<String, u64>>,
    path: String,
    disk: u64,
    /// the number that programs see; used again once nothing refers to a removed file any more
    number: u64,
    /// no name left
    gone: bool,
    /// hash of the content, as long as nothing changed it
    sum: std::cell::Cell<Option<u64>>,
    /// mapped for writing: may change at any time
    mapped_rw: bool,
    /// when it was changed
    time: u64,
    /// its name is a symbolic link to it
    linked: bool,
}

struct Ofd {
    ino: u64,
    off: u64,
    append: bool,
    writable: bool,
    refs: u32,
}

#[derive(Default, Clone, Debug)]
pub struct Fired {
    pub store_err: u32,
    pub load_err: u32,
    pub short: u32,
    pub eintr: u32,
    pub nospc: u32,
    pub fdlimit: u32,
}

impl Fired {
    pub fn any_err(&self) -> bool {
        self.store_err + self.load_err + self.nospc + self.fdlimit > 0
    }
}

pub struct Sim {
    inos: BTreeMap<u64, Ino>,
    next_ino: u64,
    ofds: BTreeMap<u64, Ofd>,
    next_ofd: u64,
    fds: BTreeMap<i32, u64>,
    maps: BTreeMap<usize, (usize, u64)>,
    graveyard: Vec<(usize, usize)>,
    // fault injection
    op: u32,
    op_idx: u32,
    faults: Vec<(u32, Act)>,
    err_all: BTreeMap<Kind, i32>,
    short_all: Option<u64>,
    pub cap: Option<u64>,
    pub fd_limit: Option<u32>,
    pub read_only: bool,
    used: u64,
    /// bytes stored by programs since the start of the run
    stored: u64,
    pub fired: Fired,
    pub fired_paths: Vec<(Kind, String)>,
    pub total_fired: BTreeMap<String, u64>,
    // trace
    pub trace_hash: u64,
    pub steps: u64,
    pub step_budget: u64,
    pub events: Option<Vec<Ev>>,
    pub log: Option<Vec<Mut>>,
    /// changes to the disks, the latest one, and how many concerned files older than the operation
    pub changes: u64,
    pub last_change: String,
    pub old_file_changes: u64,
    first_new_ino: u64,
    /// removed files, and the numbers that are free again
    gone: Vec<u64>,
    numbers: Vec<u64>,
    next_number: u64,
    /// where relative paths start
    pub cwd: Option<String>,
    /// nanoseconds since the start of the machine, what the wall clock shows besides, and how
    /// irregularly time passes (0: evenly)
    clock: u64,
    wall: i64,
    pub clock_seed: u64,
    pub clock_reads: u64,
}

static mut SIM: Option<Box<Sim>> = None;
static mut ON: bool = false;

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().expect("no simulation") }
}

pub fn active() -> bool {
    unsafe { ON }
}

/// Starts a fresh simulation (drops everything of the previous one).
#[allow(static_mut_refs)]
pub fn reset() {
    unsafe {
        if let Some(mut s) = SIM.take() {
            s.purge();
        }
        let mut s = Box::new(Sim {
            inos: BTreeMap::new(),
            next_ino: 2,
            ofds: BTreeMap::new(),
            next_ofd: 1,
            fds: BTreeMap::new(),
            maps: BTreeMap::new(),
            graveyard: vec![],
            op: 0,
            op_idx: 0,
            faults: vec![],
            err_all: BTreeMap::new(),
            short_all: None,
            cap: None,
            fd_limit: None,
            read_only: false,
            used: 0,
            stored: 0,
            fired: Fired::default(),
            fired_paths: vec![],
            total_fired: BTreeMap::new(),
            trace_hash: 0x1234_5678,
            steps: 0,
            step_budget: 40_000_000,
            events: None,
            log: None,
            changes: 0,
            last_change: String::new(),
            old_file_changes: 0,
            first_new_ino: 0,
            gone: vec![],
            numbers: vec![],
            next_number: 2,
            cwd: None,
            clock: 1_000_000_000,
            wall: 1_700_000_000_000_000_000,
            clock_seed: 0,
            clock_reads: 0,
        });
        s.inos.insert(1, Ino { fd: -1, len: 0, dir: Some(BTreeMap::new()), path: ROOT.into(), disk: 1, number: 1, gone: false, sum: Default::default(), mapped_rw: false, time: 0, linked: false });
        SIM = Some(s);
        ON = true;
    }
}

#[allow(static_mut_refs)]
pub fn shutdown() {
    unsafe {
        ON = false;
        if let Some(mut s) = SIM.take() {
            s.purge();
        }
    }
}

fn raw_close(fd: i32) {
    unsafe {
        libc::syscall(libc::SYS_close, fd);
    }
}

fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9fb2_1c65_1e98_df25).rotate_left(29);
    }
    h ^ b.len() as u64
}

/// The path without superfluous components.
pub fn normal(path: &str) -> String {
    let mut out = String::from(ROOT);
    for c in Sim::split(path) {
        out.push('/');
        out.push_str(c);
    }
    if path.ends_with('/') {
        out.push('/');
    }
    out
}

/// `/flatsim/ln-X` is a symbolic link to `/flatsim/X`
const LINK: &str = "/ln-";

pub fn is_link(path: &str) -> bool {
    path[ROOT.len()..].starts_with(LINK) && !path[ROOT.len() + 1..].contains('/') || sim().linked(&followed(path.to_string()))
}

/// The (normal) path with symbolic links followed.
pub fn followed(path: String) -> String {
    if path[ROOT.len()..].starts_with(LINK) {
        format!("{}/{}", ROOT, &path[ROOT.len() + LINK.len()..])
    } else {
        path
    }
}

pub fn is_sim_path(p: &[u8]) -> bool {
    p.starts_with(b"/flatsim") && (p.len() == 8 || p[8] == b'/')
}

type R<T> = Result<T, i32>;

struct Suspended {
    op: u32,
    op_idx: u32,
    faults: Vec<(u32, Act)>,
    err_all: BTreeMap<Kind, i32>,
    short_all: Option<u64>,
    cap: Option<u64>,
    fd_limit: Option<u32>,
    read_only: bool,
    fired: Fired,
    fired_paths: Vec<(Kind, String)>,
    events: Option<Vec<Ev>>,
    first_new_ino: u64,
}

/// What another process does right before a system call of the operation that is going on.
pub struct Nested {
    /// before this one of its system calls
    pub at: u32,
    pub what: Box<dyn FnMut()>,
}

static mut NESTED: Vec<Nested> = vec![];

#[allow(static_mut_refs)]
pub fn set_nested(mut n: Vec<Nested>) {
    n.sort_by_key(|x| x.at);
    n.reverse();
    unsafe {
        NESTED = n;
    }
}

/// what has not happened yet
#[allow(static_mut_refs)]
pub fn take_nested() -> Vec<Nested> {
    let mut n = unsafe { std::mem::take(&mut NESTED) };
    n.reverse();
    n
}

/// A system call is about to be made: other processes may come first.
#[allow(static_mut_refs)]
pub fn switch() {
    unsafe {
        while NESTED.last().map_or(false, |n| n.at <= sim().op_idx) {
            let _side = crate::alloc::Side::harness();
            let mut n = NESTED.pop().unwrap();
            let rest = std::mem::take(&mut NESTED);
            let c = sim().suspend();
            (n.what)();
            sim().resume(c);
            NESTED = rest;
        }
    }
}

impl Sim {
    fn purge(&mut self) {
        for (fd, _) in std::mem::replace(&mut self.fds, BTreeMap::new()) {
            raw_close(fd);
        }
        for (p, (l, _)) in std::mem::replace(&mut self.maps, BTreeMap::new()) {
            unsafe {
                libc::syscall(libc::SYS_munmap, p, l);
            }
        }
        self.purge_graveyard();
        for (_, i) in std::mem::replace(&mut self.inos, BTreeMap::new()) {
            if i.fd >= 0 {
                raw_close(i.fd);
            }
        }
    }

    fn purge_graveyard(&mut self) {
        for (p, l) in self.graveyard.drain(..) {
            unsafe {
                libc::syscall(libc::SYS_munmap, p, l);
            }
        }
    }

    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    pub fn open_fd_paths(&self) -> Vec<String> {
        self.fds.values().map(|o| self.inos[&self.ofds[o].ino].path.clone()).collect()
    }
    pub fn live_maps(&self) -> usize {
        self.maps.len()
    }
    pub fn used(&self) -> u64 {
        self.used
    }

    /// Starts operation `op` with its faults; clears the fired record.
    pub fn begin_op(&mut self, op: u32, faults: &[(u32, Act)]) {
        self.op = op;
        self.op_idx = 0;
        self.first_new_ino = self.next_ino;
        self.faults = faults.to_vec();
        self.err_all.clear();
        self.short_all = None;
        self.fired = Fired::default();
        self.fired_paths.clear();
        self.trace_hash = mix2(self.trace_hash, u64::from(op) | 1 << 40);
    }

    pub fn end_op(&mut self) {
        self.faults.clear();
        self.err_all.clear();
        self.short_all = None;
        self.op = u32::max_value();
    }

    /// Sets what belongs to the current operation aside, for an operation of another process.
    fn suspend(&mut self) -> Suspended {
        Suspended {
            op: self.op,
            op_idx: self.op_idx,
            faults: std::mem::take(&mut self.faults),
            err_all: std::mem::take(&mut self.err_all),
            short_all: self.short_all.take(),
            cap: self.cap.take(),
            fd_limit: self.fd_limit.take(),
            read_only: std::mem::replace(&mut self.read_only, false),
            fired: std::mem::take(&mut self.fired),
            fired_paths: std::mem::take(&mut self.fired_paths),
            events: self.events.take(),
            first_new_ino: self.first_new_ino,
        }
    }

    fn resume(&mut self, c: Suspended) {
        self.op = c.op;
        self.op_idx = c.op_idx;
        self.faults = c.faults;
        self.err_all = c.err_all;
        self.short_all = c.short_all;
        self.cap = c.cap;
        self.fd_limit = c.fd_limit;
        self.read_only = c.read_only;
        self.fired = c.fired;
        self.fired_paths = c.fired_paths;
        self.events = c.events;
        self.first_new_ino = c.first_new_ino;
    }

    pub fn mark(&mut self, x: u64) {
        self.trace_hash = mix2(self.trace_hash, x);
    }

    fn count(&mut self, what: String) {
        *self.total_fired.entry(what).or_insert(0) += 1;
    }

    /// One system call. Returns what the injector wants done to it.
    /// Time passes: evenly, or with halts of up to months, during which the wall clock may be set.
    fn tick(&mut self) {
        self.clock += 3000;
        let h = mix2(self.clock_seed, self.steps + self.clock_reads);
        if self.clock_seed != 0 && h % 32 == 0 && self.clock < 1 << 60 {
            self.clock += 1 << (h >> 8) % 52;
            if h >> 16 & 3 == 0 {
                let by = 1i64 << (h >> 24) % 56;
                self.wall = (self.wall + if h >> 18 & 1 == 0 { by } else { -by }).max(0).min(1 << 61);
            }
        }
    }

    pub fn now(&mut self, wall: bool) -> u64 {
        self.clock_reads += 1;
        self.tick();
        if wall {
            (self.wall as u64).saturating_add(self.clock)
        } else {
            self.clock
        }
    }

    /// What files record: nothing, or the wall clock's time, exactly or to two seconds.
    fn stamp(&self) -> u64 {
        let t = (self.wall as u64).saturating_add(self.clock);
        match self.clock_seed >> 1 & 1 {
            _ if self.clock_seed == 0 => 0,
            0 => t,
            _ => t / 2_000_000_000 * 2_000_000_000,
        }
    }

    pub fn sleep(&mut self, ns: u64) {
        self.clock_reads += 1;
        self.clock = self.clock.saturating_add(ns.min(1 << 60));
        self.tick();
    }

    pub fn uptime(&self) -> u64 {
        self.clock
    }

    fn step(&mut self, kind: Kind, path: &str, len: u64) -> R<Option<u64>> {
        self.steps += 1;
        self.tick();
        if self.steps > self.step_budget {
            // a run that does not end: the parent reports it
            unsafe {
                libc::_exit(70);
            }
        }
        self.trace_hash = mix2(self.trace_hash, (kind as u64) << 48 ^ len);
        self.trace_hash = hash_bytes(self.trace_hash, path.as_bytes());
        let inj = match kind {
            Kind::Close | Kind::Munmap => None,
            _ => {
                let i = self.op_idx;
                self.op_idx += 1;
                Some(i)
            }
        };
        if let Some(ev) = self.events.as_mut() {
            ev.push(Ev { kind, path: path.into(), len, injectable: inj });
        }
        let i = match inj {
            Some(i) => i,
            None => return Ok(None),
        };
        let mut act = None;
        for (at, a) in &self.faults {
            if *at == i {
                act = Some(*a);
            }
        }
        // (very long writes are not chopped into single bytes all the way)
        let mut short = self.short_all.map(|n| n.max(len >> 11));
        let mut err = self.err_all.get(&kind).cloned();
        match act {
            Some(Act::Err(e)) => err = Some(e),
            Some(Act::ErrAll(e)) => {
                self.err_all.insert(kind, e);
                err = Some(e);
            }
            Some(Act::Short(n)) => short = Some(short.map_or(n, |m| m.min(n))),
            Some(Act::ShortAll(n)) => {
                self.short_all = Some(n);
                short = Some(n.max(len >> 11));
            }
            None => {}
        }
        // only a write may take nothing
        if err == Some(TAKES_NOTHING) && (kind != Kind::Write || len == 0) {
            err = None;
        }
        if let Some(e) = err {
            if e == libc::EINTR {
                let ok = match kind {
                    Kind::Write | Kind::Read | Kind::OpenCreate | Kind::OpenRead => true,
                    _ => false,
                };
                if ok && !self.err_all.contains_key(&kind) {
                    self.fired.eintr += 1;
                    self.count(format!("eintr@{}", kind.name()));
                    self.trace_hash = mix2(self.trace_hash, 0xE1);
                    return Err(e);
                }
            } else {
                // not being able to create a directory that is there does no harm
                let harmless = kind == Kind::Mkdir && self.lookup(path).is_ok();
                if kind.is_store() && !harmless {
                    self.fired.store_err += 1;
                } else {
                    self.fired.load_err += 1;
                }
                self.fired_paths.push((if harmless { Kind::Stat } else { kind }, path.into()));
                self.count(format!("{}@{}", errname(e), kind.name()));
                self.trace_hash = mix2(self.trace_hash, 0xE2);
                return Err(e);
            }
        }
        if (kind == Kind::Write || kind == Kind::Read) && len > 0 {
            if let Some(n) = short {
                let n = n.max(1);
                if n < len {
                    self.fired.short += 1;
                    self.count(format!("short@{}", kind.name()));
                    return Ok(Some(n));
                }
            }
        }
        Ok(None)
    }

    fn changed(&mut self, file: Option<u64>, what: &str, path: &str) {
        self.changes += 1;
        self.last_change = format!("{} {}", what, path);
        if file.map_or(false, |i| i < self.first_new_ino) {
            self.old_file_changes += 1;
        }
    }

    fn mutate(&mut self, kind: MutKind) {
        let op = self.op;
        let node = |i: &u64| self.inos.get(i).map(|x| x.path.clone()).unwrap_or_default();
        let (file, what, path) = match &kind {
            MutKind::Create { ino, .. } => (None, "create", node(ino)),
            MutKind::Mkdir { ino, .. } => (None, "mkdir", node(ino)),
            MutKind::Write { ino, .. } => (Some(*ino), "write", node(ino)),
            MutKind::SetLen { ino, .. } => (Some(*ino), "set length", node(ino)),
            MutKind::Unlink { parent, name } => (None, "remove", format!("{}/{}", node(parent), name)),
            MutKind::Rename { parent, name, .. } => (None, "rename", format!("{}/{}", node(parent), name)),
        };
        self.changed(file, what, &path);
        if let Some(l) = self.log.as_mut() {
            l.push(Mut { op, kind });
        }
    }

    // ---- name resolution -------------------------------------------------------------------

    fn split(path: &str) -> Vec<&str> {
        let mut out: Vec<&str> = vec![];
        for c in path[ROOT.len()..].split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        out
    }

    fn lookup(&self, path: &str) -> R<u64> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let mut cur = 1;
        let parts = Self::split(path);
        for c in &parts {
            match &self.inos[&cur].dir {
                None => return Err(libc::ENOTDIR),
                Some(d) => match d.get(*c) {
                    Some(i) => cur = *i,
                    None => return Err(libc::ENOENT),
                },
            }
        }
        if path.ends_with('/') && self.inos[&cur].dir.is_none() {
            return Err(libc::ENOTDIR);
        }
        Ok(cur)
    }

    fn parent(&self, path: &str) -> R<(u64, String)> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        let parts = Self::split(path);
        if parts.is_empty() {
            return Err(libc::EEXIST);
        }
        let mut cur = 1;
        for c in &parts[..parts.len() - 1] {
            match &self.inos[&cur].dir {
                None => return Err(libc::ENOTDIR),
                Some(d) => match d.get(*c) {
                    Some(i) => cur = *i,
                    None => return Err(libc::ENOENT),
                },
            }
        }
        if self.inos[&cur].dir.is_none() {
            return Err(libc::ENOTDIR);
        }
        Ok((cur, parts[parts.len() - 1].to_string()))
    }

    /// removed files that nobody refers to any more disappear
    fn reclaim(&mut self) {
        if self.gone.is_empty() {
            return;
        }
        let used: std::collections::BTreeSet<u64> =
            self.maps.values().map(|m| m.1).chain(self.ofds.values().map(|o| o.ino)).collect();
        let all = std::mem::replace(&mut self.gone, vec![]);
        for i in all {
            if used.contains(&i) {
                self.gone.push(i);
            } else if let Some(n) = self.inos.remove(&i) {
                if n.fd >= 0 {
                    raw_close(n.fd);
                }
                self.numbers.push(n.number);
            }
        }
    }

    fn forget_name(&mut self, i: u64) {
        let n = self.inos.get_mut(&i).unwrap();
        n.gone = true;
        self.used -= n.len;
        self.gone.push(i);
    }

    /// the paths of everything below a renamed node
    fn repath(&mut self, i: u64, path: String) {
        let n = self.inos.get_mut(&i).unwrap();
        n.path = path.clone();
        let below: Vec<(String, u64)> = n.dir.iter().flat_map(|d| d.iter().map(|(n, i)| (n.clone(), *i))).collect();
        for (c, j) in below {
            self.repath(j, format!("{}/{}", path, c));
        }
    }

    fn add_node(&mut self, parent: u64, name: &str, is_dir: bool) -> u64 {
        self.reclaim();
        let number = match self.numbers.pop() {
            Some(n) => n,
            None => {
                self.next_number += 1;
                self.next_number
            }
        };
        let ino = self.next_ino;
        self.next_ino += 1;
        let path = format!("{}/{}", self.inos[&parent].path, name);
        let disk = if parent == 1 { ino } else { self.inos[&parent].disk };
        let fd = if is_dir {
            -1
        } else {
            let fd = unsafe { libc::syscall(libc::SYS_memfd_create, b"f\0".as_ptr(), libc::MFD_CLOEXEC) as i32 };
            assert!(fd >= 0, "memfd_create failed");
            fd
        };
        let time = self.stamp();
        self.inos.insert(
            ino,
            Ino { fd, len: 0, dir: if is_dir { Some(BTreeMap::new()) } else { None }, path, disk, number, gone: false, sum: Default::default(), mapped_rw: false, time, linked: false },
        );
        self.inos.get_mut(&parent).unwrap().dir.as_mut().unwrap().insert(name.into(), ino);
        ino
    }

    fn reserve_fd(&mut self, real: i32) -> R<i32> {
        let fd = unsafe { libc::syscall(libc::SYS_fcntl, real, libc::F_DUPFD_CLOEXEC, 100) as i32 };
        assert!(fd >= 0, "out of real descriptors");
        Ok(fd)
    }

    // ---- system calls ----------------------------------------------------------------------

    /// refuses what a file system that is mounted read-only refuses
    fn only_reading(&mut self, k: Kind) -> R<()> {
        if self.read_only {
            self.count(format!("read_only@{}", k.name()));
            return Err(libc::EROFS);
        }
        Ok(())
    }

    pub fn sys_open(&mut self, path: &str, flags: i32) -> R<i32> {
        let _side = crate::alloc::Side::harness();
        let creat = flags & libc::O_CREAT != 0;
        let acc = flags & libc::O_ACCMODE;
        let writable = acc == libc::O_WRONLY || acc == libc::O_RDWR;
        let kind = if writable || creat { Kind::OpenCreate } else { Kind::OpenRead };
        self.step(kind, path, 0)?;
        if let Some(l) = self.fd_limit {
            if self.fds.len() as u32 >= l {
                self.fired.fdlimit += 1;
                self.fired_paths.push((kind, path.into()));
                self.count(format!("fdlimit@{}", kind.name()));
                return Err(libc::EMFILE);
            }
        }
        let ino = match self.lookup(path) {
            Ok(i) => {
                if creat && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if flags & libc::O_NOFOLLOW != 0 && self.inos[&i].linked {
                    return Err(libc::ELOOP);
                }
                if writable && self.inos[&i].dir.is_none() {
                    self.only_reading(kind)?;
                }
                if self.inos[&i].dir.is_some() {
                    if writable || creat {
                        return Err(libc::EISDIR);
                    }
                } else if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                i
            }
            Err(e) if e == libc::ENOENT && creat => {
                let (p, n) = self.parent(path)?;
                self.only_reading(kind)?;
                let i = self.add_node(p, &n, false);
                self.mutate(MutKind::Create { ino: i, parent: p, name: n });
                i
            }
            Err(e) => return Err(e),
        };
        if flags & libc::O_TRUNC != 0 && writable && self.inos[&ino].dir.is_none() && self.inos[&ino].len > 0 {
            self.set_len(ino, 0);
            self.mutate(MutKind::SetLen { ino, len: 0 });
        }
        let real = if self.inos[&ino].fd >= 0 { self.inos[&ino].fd } else { 2 };
        let fd = self.reserve_fd(real)?;
        let o = self.next_ofd;
        self.next_ofd += 1;
        self.ofds.insert(o, Ofd { ino, off: 0, append: flags & libc::O_APPEND != 0, writable, refs: 1 });
        self.fds.insert(fd, o);
        Ok(fd)
    }

    pub fn is_fd(&self, fd: i32) -> bool {
        self.fds.contains_key(&fd)
    }

    pub fn sys_close(&mut self, fd: i32) -> i32 {
        let _side = crate::alloc::Side::harness();
        let o = self.fds.remove(&fd).unwrap();
        let path = self.inos[&self.ofds[&o].ino].path.clone();
        let _ = self.step(Kind::Close, &path, 0);
        let of = self.ofds.get_mut(&o).unwrap();
        of.refs -= 1;
        if of.refs == 0 {
            self.ofds.remove(&o);
        }
        raw_close(fd);
        0
    }

    pub fn sys_dup(&mut self, fd: i32) -> R<i32> {
        let _side = crate::alloc::Side::harness();
        let o = self.fds[&fd];
        let nfd = self.reserve_fd(fd)?;
        self.ofds.get_mut(&o).unwrap().refs += 1;
        self.fds.insert(nfd, o);
        Ok(nfd)
    }

    fn set_len(&mut self, ino: u64, len: u64) {
        let time = self.stamp();
        let i = self.inos.get_mut(&ino).unwrap();
        if !i.gone {
            self.used = self.used - i.len + len;
        }
        i.len = len;
        i.sum.set(None);
        i.time = time;
        let r = unsafe { libc::syscall(libc::SYS_ftruncate, i.fd, len) };
        assert!(r == 0);
    }

    fn raw_write(&mut self, ino: u64, off: u64, data: &[u8]) -> u64 {
        let time = self.stamp();
        let fd = self.inos[&ino].fd;
        let end = off + data.len() as u64;
        let put = |from: usize, to: usize| {
            let mut done = from;
            while done < to {
                let r = unsafe {
                    libc::syscall(libc::SYS_pwrite64, fd, data[done..].as_ptr(), to - done, off as usize + done)
                };
                assert!(r > 0, "memfd write failed");
                done += r as usize;
            }
        };
        let mut stored = 0;
        if data.len() >= 1 << 20 && off >= self.inos[&ino].len {
            // large and new: zeros become holes, so that files of several gigabytes cost little
            unsafe { libc::syscall(libc::SYS_ftruncate, fd, end) };
            let mut at = 0;
            while at < data.len() {
                let to = (at + 4096 - (off as usize + at) % 4096).min(data.len());
                if data[at..to].iter().any(|b| *b != 0) {
                    put(at, to);
                    stored += to - at;
                }
                at = to;
            }
        } else {
            put(0, data.len());
            stored = data.len();
        }
        let i = self.inos.get_mut(&ino).unwrap();
        i.sum.set(None);
        i.time = time;
        if end > i.len {
            if !i.gone {
                self.used += end - i.len;
            }
            i.len = end;
        }
        stored as u64
    }

    pub fn sys_write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
        let _side = crate::alloc::Side::harness();
        let o = self.fds[&fd];
        let (ino, off, writable) = {
            let f = &self.ofds[&o];
            let len = self.inos[&f.ino].len;
            (f.ino, at.unwrap_or(if f.append { len } else { f.off }), f.writable)
        };
        if !writable || self.inos[&ino].dir.is_some() {
            return Err(libc::EBADF);
        }
        let path = self.inos[&ino].path.clone();
        let short = match self.step(Kind::Write, &path, buf.len() as u64) {
            Err(TAKES_NOTHING) => return Ok(0),
            r => r?,
        };
        // never more than this at a time, as on Linux
        let mut n = buf.len().min(0x7fff_f000);
        if let Some(s) = short {
            n = n.min(s as usize);
        }
        if let Some(cap) = self.cap {
            let len = self.inos[&ino].len;
            let free = cap.saturating_sub(self.used);
            let room = len.saturating_sub(off) + free;
            if (n as u64) > room {
                if room == 0 {
                    self.fired.nospc += 1;
                    self.fired_paths.push((Kind::Write, path));
                    self.count("disk_full@write".into());
                    return Err(libc::ENOSPC);
                }
                self.count("disk_full_short@write".into());
                n = room as usize;
            }
        }
        if n > 0 {
            // a program that writes without end meets a full disk, not the memory of this machine
            if self.stored > 4 << 30 {
                self.count("endless_writing".into());
                return Err(libc::ENOSPC);
            }
            self.stored += self.raw_write(ino, off, &buf[..n]);
            self.trace_hash = hash_bytes(self.trace_hash, &buf[..n.min(4096)]);
            if self.log.is_some() {
                self.mutate(MutKind::Write { ino, off, data: Rc::from(&buf[..n]) });
            } else {
                self.changed(Some(ino), "write", &path);
            }
        }
        if at.is_none() {
            self.ofds.get_mut(&o).unwrap().off = off + n as u64;
        }
        Ok(n)
    }

    pub fn sys_read(&mut self, fd: i32, buf: *mut u8, n: usize, at: Option<u64>) -> R<usize> {
        let _side = crate::alloc::Side::harness();
        let o = self.fds[&fd];
        let (ino, off) = (self.ofds[&o].ino, at.unwrap_or(self.ofds[&o].off));
        if self.inos[&ino].dir.is_some() {
            return Err(libc::EISDIR);
        }
        let path = self.inos[&ino].path.clone();
        let short = self.step(Kind::Read, &path, n as u64)?;
        let want = short.map_or(n, |s| s as usize);
        let r = unsafe { libc::syscall(libc::SYS_pread64, self.inos[&ino].fd, buf, want, off) };
        if r < 0 {
            return Err(libc::EIO);
        }
        if at.is_none() {
            self.ofds.get_mut(&o).unwrap().off = off + r as u64;
        }
        Ok(r as usize)
    }

    pub fn sys_lseek(&mut self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let _side = crate::alloc::Side::harness();
        let o = self.fds[&fd];
        let ino = self.ofds[&o].ino;
        let path = self.inos[&ino].path.clone();
        self.step(Kind::Seek, &path, off as u64)?;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => self.ofds[&o].off as i64,
            libc::SEEK_END => self.inos[&ino].len as i64,
            _ => return Err(libc::EINVAL),
        };
        let n = base + off;
        if n < 0 {
            return Err(libc::EINVAL);
        }
        self.ofds.get_mut(&o).unwrap().off = n as u64;
        Ok(n)
    }

    pub fn sys_ftruncate(&mut self, fd: i32, len: u64) -> R<()> {
        let _side = crate::alloc::Side::harness();
        let o = self.fds[&fd];
        let ino = self.ofds[&o].ino;
        let path = self.inos[&ino].path.clone();
        self.step(Kind::Trunc, &path, len)?;
        let old = self.inos[&ino].len;
        if let Some(cap) = self.cap {
            if len > old && self.used + (len - old) > cap {
                self.fired.nospc += 1;
                return Err(libc::ENOSPC);
            }
        }
        self.set_len(ino, len);
        self.mutate(MutKind::SetLen { ino, len });
        Ok(())
    }

    pub fn sys_sync(&mut self, fd: i32) -> R<()> {
        let _side = crate::alloc::Side::harness();
        let path = self.inos[&self.ofds[&self.fds[&fd]].ino].path.clone();
        self.step(Kind::Sync, &path, 0)?;
        Ok(())
    }

    /// (ino, is_dir, len)
    pub fn sys_stat(&mut self, path: &str) -> R<(u64, bool, u64, u64)> {
        let _side = crate::alloc::Side::harness();
        self.step(Kind::Stat, path, 0)?;
        let i = self.lookup(path)?;
        Ok((self.inos[&i].number, self.inos[&i].dir.is_some(), self.inos[&i].len, self.inos[&i].time))
    }

    pub fn sys_fstat(&mut self, fd: i32) -> R<(u64, bool, u64, u64)> {
        let _side = crate::alloc::Side::harness();
        let i = self.ofds[&self.fds[&fd]].ino;
        let path = self.inos[&i].path.clone();
        self.step(Kind::Fstat, &path, 0)?;
        Ok((self.inos[&i].number, self.inos[&i].dir.is_some(), self.inos[&i].len, self.inos[&i].time))
    }

    pub fn sys_mkdir(&mut self, path: &str) -> R<()> {
        let _side = crate::alloc::Side::harness();
        self.step(Kind::Mkdir, path, 0)?;
        if self.lookup(path).is_ok() {
            return Err(libc::EEXIST);
        }
        let (p, n) = self.parent(path)?;
        self.only_reading(Kind::Mkdir)?;
        let i = self.add_node(p, &n, true);
        self.mutate(MutKind::Mkdir { ino: i, parent: p, name: n });
        Ok(())
    }

    pub fn sys_unlink(&mut self, path: &str, dir: bool) -> R<()> {
        let _side = crate::alloc::Side::harness();
        self.step(Kind::Unlink, path, 0)?;
        let i = self.lookup(path)?;
        let (p, n) = self.parent(path)?;
        self.only_reading(Kind::Unlink)?;
        let is_dir = self.inos[&i].dir.is_some();
        if dir && !is_dir {
            return Err(libc::ENOTDIR);
        }
        if !dir && is_dir {
            return Err(libc::EISDIR);
        }
        if is_dir && !self.inos[&i].dir.as_ref().unwrap().is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        self.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(&n);
        self.mutate(MutKind::Unlink { parent: p, name: n });
        self.forget_name(i);
        Ok(())
    }

    pub fn sys_rename(&mut self, a: &str, b: &str) -> R<()> {
        let _side = crate::alloc::Side::harness();
        self.step(Kind::Rename, a, 0)?;
        let i = self.lookup(a)?;
        self.only_reading(Kind::Rename)?;
        let (p, n) = self.parent(a)?;
        let (q, m) = self.parent(b)?;
        if let Ok(j) = self.lookup(b) {
            if j == i {
                return Ok(());
            }
            if self.inos[&j].dir.is_some() {
                return Err(libc::EISDIR);
            }
            self.forget_name(j);
        }
        self.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(&n);
        let np = format!("{}/{}", self.inos[&q].path, m);
        self.inos.get_mut(&q).unwrap().dir.as_mut().unwrap().insert(m.clone(), i);
        self.repath(i, np);
        self.mutate(MutKind::Rename { parent: p, name: n, nparent: q, nname: m });
        Ok(())
    }

    pub fn sys_mmap(&mut self, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> R<usize> {
        let _side = crate::alloc::Side::harness();
        let ino = self.ofds[&self.fds[&fd]].ino;
        let path = self.inos[&ino].path.clone();
        self.step(Kind::Mmap, &path, len as u64)?;
        if len == 0 {
            return Err(libc::EINVAL);
        }
        if self.inos[&ino].dir.is_some() {
            return Err(libc::ENODEV);
        }
        if prot & libc::PROT_WRITE != 0 && flags & libc::MAP_TYPE != libc::MAP_PRIVATE {
            if !self.ofds[&self.fds[&fd]].writable {
                return Err(libc::EACCES);
            }
            self.inos.get_mut(&ino).unwrap().mapped_rw = true;
        }
        let r = unsafe { libc::syscall(libc::SYS_mmap, 0usize, len, prot, flags, self.inos[&ino].fd, off) };
        if r < 0 && r > -4096 {
            return Err(libc::ENOMEM);
        }
        self.maps.insert(r as usize, (len, ino));
        Ok(r as usize)
    }

    pub fn is_map(&self, p: usize) -> bool {
        self.maps.contains_key(&p)
    }

    /// The pages stay reserved without access, so that a stale view faults deterministically.
    pub fn sys_munmap(&mut self, p: usize) {
        let _side = crate::alloc::Side::harness();
        let (len, ino) = self.maps.remove(&p).unwrap();
        let path = self.inos[&ino].path.clone();
        let _ = self.step(Kind::Munmap, &path, len as u64);
        unsafe {
            libc::syscall(libc::SYS_mmap, p, len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE, -1, 0);
        }
        self.graveyard.push((p, len));
    }

    pub fn list_dir(&mut self, path: &str) -> R<Vec<(String, u64, bool)>> {
        let _side = crate::alloc::Side::harness();
        self.step(Kind::List, path, 0)?;
        let i = self.lookup(path)?;
        match &self.inos[&i].dir {
            None => Err(libc::ENOTDIR),
            Some(d) => Ok(d.iter().map(|(n, i)| (n.clone(), self.inos[i].number, self.inos[i].dir.is_some())).collect()),
        }
    }

    pub fn path_of(&self, fd: i32) -> String {
        self.inos[&self.ofds[&self.fds[&fd]].ino].path.clone()
    }

    // ---- what other programs do to the disk (logged, never failing) --------------------------

    pub fn env_remove(&mut self, path: &str) {
        if let (Ok(i), Ok((p, n))) = (self.lookup(path), self.parent(path)) {
            let below: Vec<String> = self.inos[&i].dir.iter().flat_map(|d| d.keys().cloned()).collect();
            for c in below {
                self.env_remove(&format!("{}/{}", path, c));
            }
            self.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(&n);
            self.mutate(MutKind::Unlink { parent: p, name: n });
            self.forget_name(i);
        }
    }

    pub fn env_mkdirs(&mut self, path: &str) {
        let mut cur = 1;
        for c in Self::split(path) {
            let next = self.inos[&cur].dir.as_ref().unwrap().get(c).cloned();
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.add_node(cur, c, true);
                    self.mutate(MutKind::Mkdir { ino: i, parent: cur, name: c.into() });
                    i
                }
            };
        }
    }

    /// `to` must not exist
    fn linked(&self, path: &str) -> bool {
        self.lookup(path).map_or(false, |i| self.inos[&i].linked)
    }

    /// Some files and directories live elsewhere, with symbolic links in their places.
    pub fn env_link(&mut self, dir: &str, seed: u64) -> u64 {
        let mut n = 0;
        let mut all: Vec<String> = self.x_dirs(dir);
        all.extend(self.x_tree(dir).into_iter().map(|(f, _)| f));
        for f in all {
            let h = hash_bytes(seed, f.as_bytes());
            if let (0, Ok(i)) = (h >> 7 & 3, self.lookup(&format!("{}/{}", dir, f))) {
                self.inos.get_mut(&i).unwrap().linked = true;
                n += 1;
            }
        }
        n
    }

    pub fn env_rename(&mut self, from: &str, to: &str) {
        let i = self.lookup(from).expect("source");
        let (p, n) = self.parent(from).expect("source");
        let (q, m) = self.parent(to).expect("target");
        self.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(&n);
        let np = format!("{}/{}", self.inos[&q].path, m);
        self.inos.get_mut(&q).unwrap().dir.as_mut().unwrap().insert(m.clone(), i);
        self.repath(i, np);
        self.mutate(MutKind::Rename { parent: p, name: n, nparent: q, nname: m });
    }

    pub fn env_copy(&mut self, from: &str, to: &str) {
        self.env_mkdirs(to);
        for d in self.x_dirs(from) {
            self.env_mkdirs(&format!("{}/{}", to, d));
        }
        for (f, data) in self.x_tree(from) {
            let (p, n) = self.parent(&format!("{}/{}", to, f)).expect("parent");
            let i = self.add_node(p, &n, false);
            self.mutate(MutKind::Create { ino: i, parent: p, name: n });
            if !data.is_empty() {
                self.raw_write(i, 0, &data);
                self.mutate(MutKind::Write { ino: i, off: 0, data: Rc::from(&data[..]) });
            }
        }
    }

    // ---- direct access by the harness (no step, no fault, no log) ---------------------------

    pub fn x_mkdirs(&mut self, path: &str) {
        let mut cur = 1;
        for c in Self::split(path) {
            let next = self.inos[&cur].dir.as_ref().unwrap().get(c).cloned();
            cur = match next {
                Some(i) => i,
                None => self.add_node(cur, c, true),
            };
        }
    }

    pub fn x_read_ino(&self, ino: u64) -> Vec<u8> {
        let i = &self.inos[&ino];
        let mut v = vec![0u8; i.len as usize];
        let mut done = 0;
        while done < v.len() {
            let r = unsafe { libc::syscall(libc::SYS_pread64, i.fd, v[done..].as_mut_ptr(), v.len() - done, done) };
            assert!(r > 0);
            done += r as usize;
        }
        v
    }

    pub fn x_read(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(path).ok()?;
        if self.inos[&i].dir.is_some() {
            return None;
        }
        Some(self.x_read_ino(i))
    }

    pub fn x_len(&self, path: &str) -> Option<u64> {
        let i = self.lookup(path).ok()?;
        Some(self.inos[&i].len)
    }

    pub fn x_write(&mut self, path: &str, data: &[u8]) {
        let ino = match self.lookup(path) {
            Ok(i) => i,
            Err(_) => {
                let (p, n) = self.parent(path).expect("parent");
                self.add_node(p, &n, false)
            }
        };
        self.set_len(ino, 0);
        if !data.is_empty() {
            self.raw_write(ino, 0, data);
        }
    }

    pub fn x_remove(&mut self, path: &str) {
        if let (Ok(i), Ok((p, n))) = (self.lookup(path), self.parent(path)) {
            self.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(&n);
            self.x_free(i);
        }
    }

    fn x_free(&mut self, i: u64) {
        if let Some(n) = self.inos.remove(&i) {
            self.used -= n.len;
            if n.fd >= 0 {
                raw_close(n.fd);
            }
            if let Some(d) = n.dir {
                for (_, c) in d {
                    self.x_free(c);
                }
            }
        }
    }

    /// all files below `path`, relative name -> inode
    pub fn x_files(&self, path: &str) -> BTreeMap<String, u64> {
        fn rec(s: &Sim, i: u64, pre: &str, out: &mut BTreeMap<String, u64>) {
            if let Some(d) = &s.inos[&i].dir {
                for (n, c) in d {
                    let p = if pre.is_empty() { n.clone() } else { format!("{}/{}", pre, n) };
                    if s.inos[c].dir.is_some() {
                        rec(s, *c, &p, out);
                    } else {
                        out.insert(p, *c);
                    }
                }
            }
        }
        let mut out = BTreeMap::new();
        if let Ok(i) = self.lookup(path) {
            rec(self, i, "", &mut out);
        }
        out
    }

    pub fn x_dirs(&self, path: &str) -> Vec<String> {
        fn rec(s: &Sim, i: u64, pre: &str, out: &mut Vec<String>) {
            if let Some(d) = &s.inos[&i].dir {
                for (n, c) in d {
                    let p = if pre.is_empty() { n.clone() } else { format!("{}/{}", pre, n) };
                    if s.inos[c].dir.is_some() {
                        out.push(p.clone());
                        rec(s, *c, &p, out);
                    }
                }
            }
        }
        let mut out = vec![];
        if let Ok(i) = self.lookup(path) {
            rec(self, i, "", &mut out);
        }
        out
    }

    /// content of every file below `path`
    pub fn x_tree(&self, path: &str) -> BTreeMap<String, Vec<u8>> {
        self.x_files(path).into_iter().map(|(n, i)| (n, self.x_read_ino(i))).collect()
    }

    /// hash of names and content below `path`
    pub fn x_hash(&self, path: &str) -> u64 {
        let mut h = 7;
        for (n, i) in self.x_files(path) {
            h = hash_bytes(h, n.as_bytes());
            let l = self.inos[&i].len;
            h = mix2(h, l);
            if l > 0 {
                let ino = &self.inos[&i];
                let sum = match ino.sum.get() {
                    Some(x) if !ino.mapped_rw => x,
                    _ => {
                        let x = hash_bytes(11, &self.x_read_ino(i));
                        ino.sum.set(Some(x));
                        x
                    }
                };
                h = mix2(h, sum);
            }
        }
        for n in self.x_dirs(path) {
            h = hash_bytes(h, n.as_bytes());
        }
        h
    }

    pub fn x_names(&self, path: &str) -> Vec<String> {
        match self.lookup(path) {
            Ok(i) => self.inos[&i].dir.iter().flat_map(|d| d.keys().cloned()).collect(),
            Err(_) => vec![],
        }
    }

    pub fn x_exists(&self, path: &str) -> bool {
        self.lookup(path).is_ok()
    }

    /// Copies tree `from` to `to` (fresh inodes).
    pub fn x_copy(&mut self, from: &str, to: &str) {
        self.x_mkdirs(to);
        for d in self.x_dirs(from) {
            self.x_mkdirs(&format!("{}/{}", to, d));
        }
        for (n, i) in self.x_files(from) {
            let data = self.x_read_ino(i);
            self.x_write(&format!("{}/{}", to, n), &data);
        }
    }

    pub fn ino_path(&self, ino: u64) -> Option<&str> {
        self.inos.get(&ino).map(|i| &i.path[..])
    }
    pub fn ino_of(&self, path: &str) -> Option<u64> {
        self.lookup(path).ok()
    }
}

/// in place of an error number: a write that takes no bytes, which std reports as a failure
pub const TAKES_NOTHING: i32 = 0;

pub fn errname(e: i32) -> &'static str {
    match e {
        TAKES_NOTHING => "NOTHING",
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EACCES => "EACCES",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EINTR => "EINTR",
        libc::ENOMEM => "ENOMEM",
        libc::EAGAIN => "EAGAIN",
        libc::EFBIG => "EFBIG",
        libc::ELOOP => "ELOOP",
        libc::ENOENT => "ENOENT",
        libc::ESTALE => "ESTALE",
        libc::EPERM => "EPERM",
        libc::ETXTBSY => "ETXTBSY",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::EPIPE => "EPIPE",
        libc::EINVAL => "EINVAL",
        libc::ESPIPE => "ESPIPE",
        libc::EMLINK => "EMLINK",
        libc::ENXIO => "ENXIO",
        libc::ENODEV => "ENODEV",
        _ => "E?",
    }
}

pub fn errno_by_name(n: &str) -> Option<i32> {
    for e in &[
        TAKES_NOTHING, libc::EIO, libc::ENOSPC, libc::EMFILE, libc::ENFILE, libc::EACCES, libc::EROFS, libc::EDQUOT,
        libc::EINTR, libc::ENOMEM, libc::EAGAIN, libc::EFBIG, libc::ELOOP, libc::ENOENT, libc::ESTALE,
        libc::EPERM, libc::ETXTBSY, libc::ETIMEDOUT, libc::ENAMETOOLONG, libc::EPIPE, libc::EINVAL, libc::ESPIPE, libc::EMLINK, libc::ENXIO, libc::ENODEV,
    ] {
        if errname(*e) == n {
            return Some(*e);
        }
    }
    None
}

/// A disk that is built up from (a part of) a mutation log: the durable state a crash leaves.
pub struct Shadow {
    map: BTreeMap<u64, u64>,
}

impl Shadow {
    /// `orig` is an existing directory whose mutations were logged from its beginning, `to` the
    /// (fresh) directory that plays it back.
    pub fn new(orig_ino: u64, to: &str) -> Shadow {
        let s = sim();
        s.x_mkdirs(to);
        let mut map = BTreeMap::new();
        map.insert(orig_ino, s.ino_of(to).unwrap());
        Shadow { map }
    }

    pub fn touches(&self, m: &MutKind) -> bool {
        match m {
            MutKind::Create { parent, .. } | MutKind::Mkdir { parent, .. } | MutKind::Unlink { parent, .. } => {
                self.map.contains_key(parent)
            }
            MutKind::SetLen { ino, .. } | MutKind::Write { ino, .. } => self.map.contains_key(ino),
            MutKind::Rename { parent, nparent, .. } => {
                self.map.contains_key(parent) && self.map.contains_key(nparent)
            }
        }
    }

    /// Applies a mutation; for a write only its first `cut` bytes if given.
    pub fn apply(&mut self, m: &MutKind, cut: Option<usize>) {
        if !self.touches(m) {
            return;
        }
        let s = sim();
        match m {
            MutKind::Create { ino, parent, name } => {
                let n = s.add_node(self.map[parent], name, false);
                self.map.insert(*ino, n);
            }
            MutKind::Mkdir { ino, parent, name } => {
                let n = s.add_node(self.map[parent], name, true);
                self.map.insert(*ino, n);
            }
            MutKind::SetLen { ino, len } => s.set_len(self.map[ino], *len),
            MutKind::Write { ino, off, data } => {
                let n = cut.unwrap_or_else(|| data.len());
                if n > 0 {
                    s.raw_write(self.map[ino], *off, &data[..n]);
                }
            }
            MutKind::Unlink { parent, name } => {
                let i = s.inos.get_mut(&self.map[parent]).unwrap().dir.as_mut().unwrap().remove(name);
                if let Some(i) = i {
                    let n = s.inos.get_mut(&i).unwrap();
                    n.gone = true;
                    s.used -= n.len;
                }
            }
            MutKind::Rename { parent, name, nparent, nname } => {
                let (p, q) = (self.map[parent], self.map[nparent]);
                let i = s.inos.get_mut(&p).unwrap().dir.as_mut().unwrap().remove(name);
                if let Some(i) = i {
                    s.inos.get_mut(&q).unwrap().dir.as_mut().unwrap().insert(nname.clone(), i);
                    let np = format!("{}/{}", s.inos[&q].path, nname);
                    s.repath(i, np);
                }
            }
        }
    }
}

impl Drop for Shadow {
    /// files that lost their name while playing back
    fn drop(&mut self) {
        let s = sim();
        for i in self.map.values() {
            if s.inos.get(i).map_or(false, |n| n.gone) {
                let n = s.inos.remove(i).unwrap();
                if n.fd >= 0 {
                    raw_close(n.fd);
                }
            }
        }
    }
}
