//! Executes a plan against the real library on the simulated file system (or in memory) and
//! compares every outcome with the model.

use crate::alloc;
use crate::check::*;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::schemas::*;
use crate::vfs::{self, sim, Act, Kind, MutKind, Shadow};
use flatdata::{FileResourceStorage, MemoryResourceStorage, ResourceStorage, ResourceStorageError as RSE};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub hash: u64,
    pub steps: u64,
    pub outcomes: Vec<(u32, String)>,
    pub counters: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    /// hashes of the distinct states that were inspected (crash images, damaged trees)
    pub images: Vec<u64>,
    pub tree: Vec<(String, u64)>,
}

#[derive(Clone, Default)]
pub struct Options {
    /// record the system calls of every operation (for placing faults)
    pub events: bool,
    /// run file plans on memory storage instead
    pub force_mem: bool,
    /// check descriptor ownership after every operation
    pub fds: bool,
    /// report the files of this disk at the end
    pub tree: Option<String>,
    pub no_faults: bool,
    /// bound what the library holds
    pub memory: bool,
    /// keep the model before and after every operation
    pub around: bool,
    /// another process is in the middle of things: what is stored may change
    pub overlapped: bool,
}

type Around = BTreeMap<u32, (Model, Model)>;

struct StoreSlot {
    store: Store,
    place: String,
    mem: bool,
    sid: u32,
}
struct BSlot {
    b: Rc<Box<dyn DynBuilder>>,
    arc: &'static ArcDef,
    place: String,
    mem: bool,
    sid: u32,
}
struct WSlot {
    w: Option<Box<dyn DynW>>,
    #[allow(dead_code)]
    b: Option<Rc<Box<dyn DynBuilder>>>,
    #[allow(dead_code)]
    store: Option<Store>,
    kind: &'static PartKind,
    path: String,
    content: Content,
    total: u64,
    seed: u64,
    tw: u64,
    /// growing it failed before: it may have become impossible to finish
    tainted: bool,
    pushed: u64,
    mem: bool,
    sid: u32,
}
struct ASlot {
    a: Box<dyn DynArchive>,
    arc: &'static ArcDef,
    place: String,
    snap: Snapshot,
    stale: bool,
    sids: Rc<BTreeMap<String, u32>>,
    rel: String,
    store_sid: Option<u32>,
}
struct VSlot {
    v: Box<dyn Held>,
    expect: Content,
    sid: u32,
    paths: Vec<String>,
    stale: bool,
}
struct RawStream {
    s: Rc<RefCell<dyn StreamLike>>,
    path: String,
}
/// the library's stream trait is not nameable from outside
trait StreamLike {
    fn put(&mut self, b: &[u8]) -> io::Result<()>;
}
struct Wrap<T: ?Sized>(Rc<RefCell<T>>);
impl<T: ?Sized + io::Write> StreamLike for Wrap<T> {
    fn put(&mut self, b: &[u8]) -> io::Result<()> {
        self.0.borrow_mut().write_all(b)
    }
}
fn wrap<T: ?Sized + io::Write + 'static>(r: Rc<RefCell<T>>) -> Rc<RefCell<dyn StreamLike>> {
    Rc::new(RefCell::new(Wrap(r)))
}

#[derive(Default)]
struct World {
    views: BTreeMap<u64, VSlot>,
    archives: BTreeMap<u64, ASlot>,
    writers: BTreeMap<u64, WSlot>,
    streams: BTreeMap<u64, RawStream>,
    builders: BTreeMap<u64, BSlot>,
    stores: BTreeMap<u64, StoreSlot>,
}

pub struct Exec<'p> {
    plan: &'p Plan,
    opt: Options,
    w: World,
    pub model: Model,
    snaps: BTreeMap<u32, Model>,
    order: Vec<u32>,
    out: Outcome,
    next_sid: u32,
    /// system calls per operation, if recorded
    pub events: BTreeMap<u32, Vec<vfs::Ev>>,
    keep_log: bool,
    image_no: u32,
    /// raw contents by full path for storage-level operations
    raws: BTreeMap<String, Option<Vec<u8>>>,
    /// how often other programs rearranged directories
    env_no: u32,
    /// files that have nothing to do with any archive: path below the root -> content
    litter: BTreeMap<String, Vec<u8>>,
    /// files that are out of the way for a while: where from, where to, the part and what it was
    hidden: BTreeMap<u64, Hidden>,
    /// how often directories or parts were removed or moved
    tree_no: u32,
    /// what was held after each round of repeated operations
    marks: BTreeMap<u64, Vec<(i64, u64, u64)>>,
}

struct Hidden {
    from: String,
    to: String,
    path: String,
    state: Option<PState>,
    tree_no: u32,
}

static RAW_KIND: PartKind = PartKind::Raw;

fn iores(r: &Result<(), io::Error>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => iocat(e),
    }
}

fn vec_kind() -> &'static PartKind {
    static K: PartKind = PartKind::Vec(<T8 as Rec>::DEF);
    &K
}
fn multi_kind() -> &'static PartKind {
    &AllOpt::DEF.parts.iter().find(|p| p.name == "m").unwrap().kind
}

pub fn fits(k: &PartKind, c: &Content) -> bool {
    match (k, c) {
        (PartKind::Multi { index, .. }, Content::Multi(items)) => {
            let bits = index.fields[0].bits;
            if bits >= 63 {
                return true;
            }
            let total: u64 = items.iter().map(|i| item_size(k, i)).sum();
            total < 1u64 << bits
        }
        _ => true,
    }
}

impl<'p> Exec<'p> {
    pub fn new(plan: &'p Plan, opt: Options) -> Exec<'p> {
        vfs::reset();
        sim().clock_seed = plan.kv.get("clock").and_then(|x| x.parse().ok()).unwrap_or(0);
        Exec::another(plan, opt)
    }

    /// another process on the same machine
    fn another(plan: &'p Plan, opt: Options) -> Exec<'p> {
        let keep_log = plan.ops.iter().any(|o| o.name == "crash" || o.name == "reboot") && !opt.force_mem;
        if keep_log {
            sim().log = Some(vec![]);
        }
        Exec {
            plan,
            opt,
            w: World::default(),
            model: Model::default(),
            snaps: BTreeMap::new(),
            order: vec![],
            out: Outcome::default(),
            next_sid: 1,
            events: BTreeMap::new(),
            keep_log,
            image_no: 0,
            raws: BTreeMap::new(),
            env_no: 0,
            litter: BTreeMap::new(),
            hidden: BTreeMap::new(),
            tree_no: 0,
            marks: BTreeMap::new(),
        }
    }

    fn count(&mut self, k: &str) {
        *self.out.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    fn countn(&mut self, k: &str, n: u64) {
        *self.out.counters.entry(k.to_string()).or_insert(0) += n;
    }
    fn sid(&mut self) -> u32 {
        self.next_sid += 1;
        self.next_sid
    }

    pub fn run(mut self) -> (Result<(), Violation>, Outcome, BTreeMap<u32, Vec<vfs::Ev>>) {
        let (res, out, ev, _) = self.run_all();
        (res, out, ev)
    }

    fn run_all(&mut self) -> (Result<(), Violation>, Outcome, BTreeMap<u32, Vec<vfs::Ev>>, Around) {
        let mut res = Ok(());
        let mut around = Around::new();
        for op in &self.plan.ops {
            if is_peer(op) {
                continue;
            }
            let before = if self.opt.around { self.model.clone() } else { Model::default() };
            res = self.one(op);
            if res.is_err() {
                break;
            }
            if self.opt.around {
                around.insert(op.id, (before, self.model.clone()));
            }
        }
        let (res, out, ev) = self.done(res);
        (res, out, ev, around)
    }

    /// One operation, with its faults.
    fn one(&mut self, op: &Op) -> Result<(), Violation> {
        {
            if self.keep_log {
                self.snaps.insert(op.id, self.model.clone());
                self.order.push(op.id);
            }
            if self.opt.events {
                sim().events = Some(vec![]);
            }
            let faults: &[(u32, Act)] = if self.opt.no_faults { &[] } else { &op.faults };
            sim().begin_op(op.id, faults);
            let bound = self.memory_bound(op);
            alloc::reset_peak();
            let r = self.op(op);
            sim().end_op();
            let peak = alloc::lib_peak();
            if self.opt.events {
                if let Some(e) = sim().events.take() {
                    self.events.insert(op.id, e);
                }
            }
            let r = match r {
                Ok(s) => {
                    self.count(&format!("op:{}", op.name));
                    if s.starts_with("skip") {
                        self.count("skipped");
                    }
                    for b in s.bytes() {
                        self.out.hash = mix2(self.out.hash, u64::from(b));
                    }
                    self.out.outcomes.push((op.id, s));
                    if self.opt.memory && peak > bound {
                        viol("too much memory is taken", format!("{}: {} MiB", op.name, peak >> 20))
                    } else if self.opt.fds {
                        self.check_fds()
                    } else {
                        Ok(())
                    }
                }
                Err(v) => Err(v),
            };
            r.map_err(|mut v| {
                v.op = op.id;
                v
            })
        }
    }

    fn done(&mut self, mut res: Result<(), Violation>) -> (Result<(), Violation>, Outcome, BTreeMap<u32, Vec<vfs::Ev>>) {
        if let Some(d) = &self.opt.tree {
            let files = sim().x_files(&format!("{}/{}", vfs::ROOT, d));
            self.out.tree = files.into_iter().map(|(n, i)| (n, sim().x_read_ino(i).len() as u64)).collect();
        }
        let end = self.finish(res.is_ok());
        if res.is_ok() {
            res = end;
        }
        self.out.hash = mix2(self.out.hash, sim().trace_hash);
        self.out.steps = sim().steps;
        self.countn("clock:reads", sim().clock_reads);
        self.countn("clock:seconds", sim().uptime() / 1_000_000_000);
        self.out.fired = sim().total_fired.clone();
        let out = std::mem::replace(&mut self.out, Outcome::default());
        let ev = std::mem::replace(&mut self.events, BTreeMap::new());
        (res, out, ev)
    }

    /// Releases everything; nothing may be left behind.
    fn finish(&mut self, ok: bool) -> Result<(), Violation> {
        sim().begin_op(u32::max_value() - 1, &[]);
        sim().cap = None;
        sim().fd_limit = None;
        self.w.views.clear();
        self.w.archives.clear();
        let writers = std::mem::replace(&mut self.w.writers, BTreeMap::new());
        for (_, mut w) in writers {
            let _ = guard(|| {
                let _inner = w.w.take();
                panic!("simulated failure elsewhere");
            });
        }
        self.w.streams.clear();
        self.w.builders.clear();
        self.w.stores.clear();
        sim().end_op();
        if ok && self.opt.fds {
            if sim().open_fds() > 0 {
                return viol("file handle left behind", format!("{:?}", sim().open_fd_paths()));
            }
            if sim().live_maps() > 0 {
                return viol("mapping left behind", format!("{} mappings", sim().live_maps()));
            }
        }
        Ok(())
    }

    /// What the library may hold on its heap during an operation: some buffers for each streamed
    /// writer, and next to nothing otherwise, whatever the amount of data. In memory, and where data
    /// is handed over as a whole, there is no bound.
    fn memory_bound(&mut self, op: &Op) -> i64 {
        let bounded = match &op.name[..] {
            "start" | "push" | "close" | "dropw" | "open" | "reread" | "dupa" | "suba" | "new" | "sub" | "ex" | "drop" => true,
            _ => false,
        };
        if !self.opt.memory || !bounded || self.w.stores.values().any(|s| s.mem) {
            return i64::max_value();
        }
        self.count("probe:memory_bounds");
        let streams = self.w.writers.len() as i64 + (op.name == "start") as i64;
        (4 << 20) + streams * (256 << 20)
    }

    /// The same operations, again and again, must not take more and more.
    fn op_mark(&mut self, op: &Op) -> Result<String, Violation> {
        let now = (alloc::lib_live(), sim().live_maps() as u64, sim().open_fds() as u64);
        let m = self.marks.entry(op.u("k")).or_insert_with(Vec::new);
        m.push(now);
        if m.len() < 5 || !self.opt.memory {
            return Ok("ok".into());
        }
        let (seen, m) = (m.len(), m.clone());
        self.count("probe:rounds_compared");
        let most = |f: &dyn Fn(&(i64, u64, u64)) -> i64| (f(&m[2]).max(f(&m[3])), f(&now));
        for (what, (before, after)) in vec![
            ("mappings", most(&|x| x.1 as i64)),
            ("file handles", most(&|x| x.2 as i64)),
            ("bytes of memory", most(&|x| x.0)),
        ] {
            if after > before {
                return viol(
                    &format!("repeating the same operations takes more and more {}", what),
                    format!("{} after 4 rounds, {} after {}", before, after, seen),
                );
            }
        }
        Ok("ok".into())
    }

    /// Every open descriptor must belong to a part whose writer is open.
    fn check_fds(&mut self) -> Result<(), Violation> {
        let mut owned: BTreeSet<String> = BTreeSet::new();
        for w in self.w.writers.values().filter(|w| !w.mem) {
            owned.insert(format!("{}/{}", vfs::ROOT, w.path));
            owned.insert(format!("{}/{}_index", vfs::ROOT, w.path));
        }
        for s in self.w.streams.values() {
            owned.insert(format!("{}/{}", vfs::ROOT, s.path));
        }
        let mut seen = BTreeSet::new();
        for p in sim().open_fd_paths() {
            if !owned.contains(&p) || !seen.insert(p.clone()) {
                return viol("file handle outlives its operation", p);
            }
        }
        Ok(())
    }

    // ---- helpers ---------------------------------------------------------------------------

    fn place_of(&self, op: &Op) -> (String, bool) {
        let mem = op.s("kind") == "mem" || self.opt.force_mem;
        let disk = if mem { format!("m{}", op.s("disk")) } else { op.s("disk").to_string() };
        let root = op.s("root");
        (if root.is_empty() { disk } else { format!("{}/{}", disk, root) }, mem)
    }

    fn store_fault_fired() -> bool {
        let f = &sim().fired;
        f.store_err + f.nospc > 0
            || sim().fired_paths.iter().any(|(k, _)| k.is_store())
    }
    fn any_fault_fired() -> bool {
        sim().fired.any_err()
    }

    fn busy(&self, path: &str) -> bool {
        self.w.writers.values().any(|w| w.path == path) || self.w.streams.values().any(|s| s.path == path)
    }

    /// a write attempt on `path` begins: what was handed out about it may change from here on
    fn touch(&mut self, path: &str) {
        if path.starts_with('m') && self.judges("C08") {
            // in memory what was handed out is a copy
            return;
        }
        for v in self.w.views.values_mut() {
            if v.paths.iter().any(|p| p == path) {
                v.stale = true;
            }
        }
        for a in self.w.archives.values_mut() {
            if path.starts_with(&format!("{}/", a.place)) {
                a.stale = true;
            }
        }
    }

    fn begin_attempt(&mut self, path: &str, kind: &'static PartKind, schema: &str) {
        self.touch(path);
        let e = self.model.parts.entry(path.to_string()).or_insert_with(|| PState::fresh(kind, schema));
        e.begin();
    }

    /// error results of writing calls against the faults that fired in them
    fn strict(&self, what: &str, is_err: bool, before: u32) -> Result<(), Violation> {
        let f = &sim().fired;
        let now = f.store_err + f.nospc + f.fdlimit;
        if now > before && !is_err && Self::store_fault_fired() && self.judges("C03") {
            return viol(
                &format!("{} succeeds although storing failed", what),
                format!("failed calls: {:?}", sim().fired_paths),
            );
        }
        Ok(())
    }

    /// Some observations concern particular properties only; runs of the others go on.
    fn judges(&self, props: &str) -> bool {
        self.plan.prop.is_empty() || props.contains(&self.plan.prop)
    }

    fn alive(&self) -> BTreeSet<u32> {
        let mut s: BTreeSet<u32> = self.w.stores.values().map(|x| x.sid).collect();
        s.extend(self.w.builders.values().map(|x| x.sid));
        s.extend(self.w.writers.values().map(|x| x.sid));
        for a in self.w.archives.values() {
            s.extend(a.store_sid.iter());
            for (p, i) in a.sids.iter() {
                if a.rel.is_empty() || *p == a.rel || p.starts_with(&format!("{}/", a.rel)) {
                    s.insert(*i);
                }
            }
        }
        s
    }

    /// Before owners go away, views of theirs must go (that is the caller's side of the contract).
    fn drop_dependent_views(&mut self) {
        let alive = self.alive();
        let dead: Vec<u64> = self.w.views.iter().filter(|(_, v)| !alive.contains(&v.sid)).map(|(k, _)| *k).collect();
        for k in dead {
            self.w.views.remove(&k);
        }
    }

    // ---- operations ------------------------------------------------------------------------

    fn op(&mut self, op: &Op) -> Result<String, Violation> {
        let reads = match &op.name[..] {
            "open" | "reread" | "dupa" | "suba" | "hold" | "rhold" | "chkv" | "res" | "rres" | "rraw" | "ex" => true,
            _ => false,
        };
        let n = sim().changes;
        sim().read_only = reads && op.u("ro") == 1;
        let r = self.op_inner(op);
        sim().read_only = false;
        let r = r?;
        if reads && sim().changes != n && !self.opt.overlapped && self.judges("C07") {
            return viol("reading changes what is stored", format!("{}: {}", op.name, sim().last_change));
        }
        Ok(r)
    }

    fn op_inner(&mut self, op: &Op) -> Result<String, Violation> {
        match &op.name[..] {
            "stor" => self.op_stor(op),
            "new" => self.op_new(op),
            "sub" => self.op_sub(op),
            "set" => self.op_set(op),
            "start" => self.op_start(op),
            "push" => self.op_push(op),
            "close" => self.op_close(op),
            "dropw" => self.op_dropw(op),
            "open" => self.op_open(op),
            "reread" => self.op_reread(op),
            "dupa" => self.op_dupa(op),
            "suba" => self.op_suba(op),
            "hold" => self.op_hold(op),
            "rhold" => self.op_rhold(op),
            "chkv" => self.op_chkv(op),
            "drop" => self.op_drop(op),
            "mark" => self.op_mark(op),
            "cap" => {
                let n = op.u("n");
                sim().cap = if op.s("n") == "off" { None } else { Some(sim().used() + n) };
                Ok("ok".into())
            }
            "fdlim" => {
                sim().fd_limit = if op.s("n") == "off" { None } else { Some(op.u("n") as u32) };
                Ok("ok".into())
            }
            "res" => self.op_res(op),
            "tree" => self.op_tree(op),
            "crash" => self.op_crash(op),
            "reboot" => self.op_reboot(op),
            "dmg" => self.op_dmg(op),
            "litter" => self.op_litter(op),
            "ln" => {
                let disk = format!("{}/{}", vfs::ROOT, op.s("disk"));
                if !self.opt.force_mem && sim().x_exists(&disk) {
                    let n = sim().env_link(&disk, op.u("seed"));
                    self.countn("probe:names_turned_into_symbolic_links", n);
                }
                Ok("ok".into())
            }
            "rmtree" | "mvtree" | "cptree" | "rmpart" | "hide" | "unhide" => self.op_env(op),
            // storage level
            "wres" => self.op_wres(op),
            "rres" => self.op_rres(op),
            "rraw" => self.op_rraw(op),
            "ex" => self.op_ex(op),
            "sdir" => self.op_sdir(op),
            "vst" | "mst" => self.op_vst(op),
            "cos" => self.op_cos(op),
            "cosw" => self.op_cosw(op),
            "cosd" => {
                self.w.streams.remove(&op.u("h"));
                Ok("ok".into())
            }
            x => panic!("unknown operation {}", x),
        }
    }

    fn op_stor(&mut self, op: &Op) -> Result<String, Violation> {
        let (place, mem) = self.place_of(op);
        let store: Store = if mem {
            MemoryResourceStorage::new(spelled("/mem", &place, op.u("spell")))
        } else {
            sim().x_mkdirs(&format!("{}/{}", vfs::ROOT, op.s("disk")));
            let disk = format!("{}/{}", vfs::ROOT, op.s("disk"));
            let cwd = sim().cwd.get_or_insert(disk.clone()).clone();
            if op.u("spell") == 6 && cwd == disk {
                FileResourceStorage::new(native(op.s("root")))
            } else {
                FileResourceStorage::new(match op.u("spell") {
                    // through a symbolic link
                    7 => native(&format!("{}/ln-{}", vfs::ROOT, place)),
                    how => spelled(vfs::ROOT, &place, how),
                })
            }
        };
        let sid = self.sid();
        if let Some(old) = self.w.stores.remove(&op.u("s")) {
            self.drop_dependent_views();
            drop(old);
        }
        // a memory storage lives in one object: another one is another universe
        let place = if mem { format!("{}.{}", place, sid) } else { place };
        self.w.stores.insert(op.u("s"), StoreSlot { store, place, mem, sid });
        Ok("ok".into())
    }

    fn disk_of(place: &str) -> String {
        format!("{}/{}", vfs::ROOT, place.split('/').next().unwrap())
    }

    /// common part of `new` and `sub`
    fn creation(
        &mut self,
        what: &str,
        place: &str,
        mem: bool,
        arc: &'static ArcDef,
        f: &mut dyn FnMut() -> Result<Box<dyn DynBuilder>, RSE>,
    ) -> Result<(String, Option<Box<dyn DynBuilder>>), Violation> {
        let key = (place.to_string(), arc.name);
        let sig = self.model.sigs.get(&key).cloned();
        let disk = Self::disk_of(place);
        let before = if sig.is_some() && !mem { sim().x_hash(&disk) } else { 0 };
        let old_files = sim().old_file_changes;
        let stored = if mem {
            None
        } else {
            sim().x_read(&format!("{}/{}/{}.archive", vfs::ROOT, place, arc.name)).map(|d| d.len())
        };
        let r = match guard(|| f()) {
            Ok(r) => r,
            Err(m) => return viol(&format!("{} panics", what), m),
        };
        self.strict(what, r.is_err(), 0)?;
        match sig {
            Some(Sig::Settled) => {
                match &r {
                    _ if !self.judges("C06 C12") => {}
                    Ok(_) => return viol("an existing archive is created again", format!("{} at {}", arc.name, place)),
                    Err(RSE::Io(e, _)) if e.kind() == io::ErrorKind::AlreadyExists => {}
                    Err(e) => {
                        return viol("creating an existing archive fails with another error", errstr(e));
                    }
                }
                if !mem && self.judges("C06") && (sim().x_hash(&disk) != before || sim().old_file_changes != old_files) {
                    return viol("creating again touches the existing archive", format!("{} at {}", arc.name, place));
                }
                self.count("probe:create_existing");
            }
            Some(Sig::Maybe) => {
                // a signature that was stored counts, whatever happened next
                if stored >= Some(16) && self.judges("C06 C12") {
                    match &r {
                        Ok(_) => {
                            return viol("an existing archive is created again", format!("{} at {}, which was cut off", arc.name, place))
                        }
                        Err(RSE::Io(e, _)) if e.kind() == io::ErrorKind::AlreadyExists => {}
                        Err(e) => return viol("creating an existing archive fails with another error", errstr(e)),
                    }
                    if self.judges("C06") && (sim().x_hash(&disk) != before || sim().old_file_changes != old_files) {
                        return viol("creating again touches the existing archive", format!("{} at {}, which was cut off", arc.name, place));
                    }
                    self.count("probe:create_after_partial");
                }
                match &r {
                    Ok(_) => {
                        self.model.sigs.insert(key, Sig::Settled);
                    }
                    Err(e) => {
                        if !mem && stored.is_none() && !Self::any_fault_fired() {
                            return viol(&format!("{} fails without cause", what), errstr(e));
                        }
                    }
                }
            }
            None => match &r {
                Ok(_) => {
                    self.touch(&join(place, &format!("{}.archive", arc.name)));
                    self.model.sigs.insert(key, Sig::Settled);
                }
                Err(e) => {
                    if !Self::any_fault_fired() {
                        return viol(&format!("{} fails without cause", what), errstr(e));
                    }
                    self.model.sigs.insert(key, Sig::Maybe);
                }
            },
        }
        let s = match &r {
            Ok(_) => "ok".into(),
            Err(e) => errcat(e),
        };
        Ok((s, r.ok()))
    }

    fn op_new(&mut self, op: &Op) -> Result<String, Violation> {
        let arc = match by_name(op.s("arc")) {
            Some(a) => a,
            None => return Ok("skip".into()),
        };
        let (store, place, mem, sid) = match self.w.stores.get(&op.u("s")) {
            Some(s) => (s.store.clone(), s.place.clone(), s.mem, s.sid),
            None => return Ok("skip".into()),
        };
        let (s, b) = self.creation("creating an archive", &place, mem, arc, &mut || (arc.create)(store.clone()))?;
        if let Some(b) = b {
            let old = self.w.builders.insert(op.u("b"), BSlot { b: Rc::new(b), arc, place, mem, sid });
            self.drop_dependent_views();
            drop(old);
        }
        Ok(s)
    }

    fn op_sub(&mut self, op: &Op) -> Result<String, Violation> {
        let (b, arc, place, mem) = match self.w.builders.get(&op.u("from")) {
            Some(b) => (b.b.clone(), b.arc, b.place.clone(), b.mem),
            None => return Ok("skip".into()),
        };
        let part = match arc.part(op.s("part")) {
            Some(p) => p,
            None => return Ok("skip".into()),
        };
        let sub = match part.kind {
            PartKind::Sub(s) => s,
            _ => return Ok("skip".into()),
        };
        let path = join(&place, part.name);
        let (s, nb) = self.creation("creating a subarchive", &path, mem, sub, &mut || b.sub(part.name))?;
        if let Some(nb) = nb {
            let sid = self.sid();
            let old = self.w.builders.insert(op.u("b"), BSlot { b: Rc::new(nb), arc: sub, place: path, mem, sid });
            self.drop_dependent_views();
            drop(old);
        }
        Ok(s)
    }

    fn op_set(&mut self, op: &Op) -> Result<String, Violation> {
        let (b, arc, place) = match self.w.builders.get(&op.u("b")) {
            Some(b) => (b.b.clone(), b.arc, b.place.clone()),
            None => return Ok("skip".into()),
        };
        let part = match arc.part(op.s("part")) {
            Some(p) if p.is_settable() => p,
            _ => return Ok("skip".into()),
        };
        let path = join(&place, part.name);
        if self.busy(&path) {
            return Ok("skip busy".into());
        }
        let c = Rc::new(near_content(&part.kind, op.u("seed"), op.u("n"), op.u("tw")));
        self.begin_attempt(&path, &part.kind, part.schema);
        let r = match guard(|| b.set(part.name, &c, op.u("how"))) {
            Ok(r) => r,
            Err(m) => return viol("setting a part panics", format!("{}: {}", path, m)),
        };
        self.strict("setting a part", r.is_err(), 0)?;
        let st = self.model.parts.get_mut(&path).unwrap();
        match &r {
            Ok(()) => st.settle(c),
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("setting a part fails without cause", format!("{}: {:?}", path, e));
                }
                st.add(c);
                self.count("probe:set_failed");
            }
        }
        Ok(iores(&r))
    }

    fn op_start(&mut self, op: &Op) -> Result<String, Violation> {
        let (b, arc, place, mem, sid) = match self.w.builders.get(&op.u("b")) {
            Some(b) => (b.b.clone(), b.arc, b.place.clone(), b.mem, b.sid),
            None => return Ok("skip".into()),
        };
        let part = match arc.part(op.s("part")) {
            Some(p) if p.is_streamable() => p,
            _ => return Ok("skip".into()),
        };
        let path = join(&place, part.name);
        if self.busy(&path) || self.w.writers.contains_key(&op.u("w")) {
            return Ok("skip busy".into());
        }
        self.begin_attempt(&path, &part.kind, part.schema);
        let r = match guard(|| b.start(part.name)) {
            Ok(r) => r,
            Err(m) => return viol("starting a writer panics", format!("{}: {}", path, m)),
        };
        self.strict("starting a writer", r.is_err(), 0)?;
        match r {
            Ok(w) => {
                self.w.writers.insert(
                    op.u("w"),
                    WSlot {
                        w: Some(w),
                        b: Some(b),
                        store: None,
                        kind: &part.kind,
                        path,
                        content: empty_content(&part.kind),
                        total: 0,
                        seed: op.u("seed"),
                        tw: op.u("tw"),
                        tainted: false,
                        pushed: 0,
                        mem,
                        sid,
                    },
                );
                Ok("ok".into())
            }
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("starting a writer fails without cause", format!("{}: {:?}", path, e));
                }
                self.count("probe:start_failed");
                Ok(iocat(&e))
            }
        }
    }

    fn op_push(&mut self, op: &Op) -> Result<String, Violation> {
        let mut slot = match self.w.writers.remove(&op.u("w")) {
            Some(w) => w,
            None => return Ok("skip".into()),
        };
        let mut res = String::new();
        let mut bad = Ok(());
        for _ in 0..op.u("n") {
            let i = slot.pushed;
            slot.pushed += 1;
            let e = near_elem(slot.kind, slot.seed, slot.tw, i);
            let f = &sim().fired;
            let before = f.store_err + f.nospc + f.fdlimit;
            let loads = f.load_err;
            let w = slot.w.as_mut().unwrap();
            let r = match guard(|| w.push(&e)) {
                Ok(r) => r,
                Err(m) => {
                    bad = viol("growing a part panics", format!("{}: {}", slot.path, m));
                    break;
                }
            };
            bad = self.strict("growing a part", r.is_err(), before);
            if bad.is_err() {
                break;
            }
            match r {
                Ok(()) => {
                    if let Elem::Item(it) = &e {
                        slot.total += item_size(slot.kind, it);
                    }
                    push_elem(&mut slot.content, e);
                    res.push('+');
                }
                Err(err) => {
                    let f = &sim().fired;
                    let faulty = f.store_err + f.nospc + f.fdlimit > before || f.load_err > loads;
                    let addressable = match slot.kind {
                        PartKind::Multi { index, .. } => {
                            let b = index.fields[0].bits;
                            b >= 63 || slot.total < 1u64 << b
                        }
                        _ => true,
                    };
                    if !faulty && addressable {
                        bad = viol("growing a part fails without cause", format!("{}: {:?}", slot.path, err));
                        break;
                    }
                    if faulty {
                        slot.tainted = true;
                        self.count("probe:push_failed");
                    } else {
                        self.count("probe:push_refused");
                    }
                    res.push_str(&iocat(&err));
                }
            }
            let n = match &slot.content {
                Content::Vec(v) => v.len(),
                _ => 0,
            };
            if self.judges("C01 C03") && !slot.w.as_ref().unwrap().check_len(n) {
                bad = viol("a writer misreports its length", slot.path.clone());
                break;
            }
        }
        self.w.writers.insert(op.u("w"), slot);
        bad?;
        if res.len() > 40 {
            res = format!("{}x{}", res.len(), &res[..8]);
        }
        Ok(res)
    }

    fn op_close(&mut self, op: &Op) -> Result<String, Violation> {
        let mut slot = match self.w.writers.remove(&op.u("w")) {
            Some(w) => w,
            None => return Ok("skip".into()),
        };
        let path = slot.path.clone();
        let w = slot.w.take().unwrap();
        let ok_fit = fits(slot.kind, &slot.content);
        let content = Rc::new(std::mem::replace(&mut slot.content, Content::Raw(vec![])));
        let r = match guard(|| w.close()) {
            Ok(r) => r,
            Err(m) => return viol("finishing a part panics", format!("{}: {}", path, m)),
        };
        self.strict("finishing a part", r.is_err(), 0)?;
        match r {
            Ok(held) => {
                if !ok_fit {
                    return viol("content that the index cannot address is finished", path);
                }
                // the view returned by the writer shows the content
                match guard(|| held.reread()) {
                    Ok(Ok(cs)) => {
                        if cs.iter().any(|c| *c != *content) {
                            return viol(
                                "view returned by a finished writer is wrong",
                                format!("{}: wrote {:?}, shown {:?}", path, content, cs),
                            );
                        }
                    }
                    Ok(Err(e)) => return viol("access paths disagree", format!("{}: {}", path, e)),
                    Err(m) => return viol("reading a finished writer's view panics", format!("{}: {}", path, m)),
                }
                self.model.parts.get_mut(&path).unwrap().settle(content.clone());
                if op.has("hold") {
                    let paths = vec![path.clone()];
                    self.w.views.insert(
                        op.u("hold"),
                        VSlot { v: held, expect: (*content).clone(), sid: slot.sid, paths, stale: false },
                    );
                }
                self.count("probe:closed");
                Ok("ok".into())
            }
            Err(e) => {
                if ok_fit && !Self::any_fault_fired() {
                    // an earlier failure in this writer may have made the part unfinishable
                    if !slot.tainted {
                        return viol("finishing a part fails without cause", format!("{}: {}", path, errstr(&e)));
                    }
                }
                if ok_fit {
                    self.model.parts.get_mut(&path).unwrap().add(content);
                }
                self.count("probe:close_failed");
                Ok(errcat(&e))
            }
        }
    }

    fn op_dropw(&mut self, op: &Op) -> Result<String, Violation> {
        let mut slot = match self.w.writers.remove(&op.u("w")) {
            Some(w) => w,
            None => return Ok("skip".into()),
        };
        let path = slot.path.clone();
        let w = slot.w.take().unwrap();
        if op.s("mode") == "unwind" {
            let r = guard(move || {
                let _w = w;
                panic!("simulated failure elsewhere");
            });
            self.count("probe:dropped_while_unwinding");
            match r {
                Err(ref m) if m == "simulated failure elsewhere" => Ok("unwound".into()),
                Err(_) if !self.judges("C10 C12") => Ok("unwound".into()),
                Err(m) => viol("dropping a writer while unwinding replaces the panic", format!("{}: {}", path, m)),
                Ok(()) => unreachable!(),
            }
        } else {
            let r = guard(move || drop(w));
            self.count("probe:dropped_open");
            match r {
                Err(_) => Ok("panicked".into()),
                Ok(()) if !self.judges("C10 C12") => Ok("panicked".into()),
                Ok(()) => viol("an unfinished writer is dropped silently", path),
            }
        }
    }

    fn lenient_paths(&self, place: &str, arc: &'static ArcDef) -> (BTreeSet<String>, bool) {
        let mut len = BTreeSet::new();
        let mut all = true;
        let base = format!("{}/{}/", vfs::ROOT, place);
        for (_, p) in &sim().fired_paths {
            match if p.starts_with(&base) { absorber(arc, &p[base.len()..]) } else { None } {
                Some(x) => {
                    len.insert(x);
                }
                None => all = false,
            }
        }
        (len, all)
    }

    /// Opens an archive through `store` and compares it with `model` at `place`.
    fn open_and_check(
        &mut self,
        model: &Model,
        place: &str,
        real_place: &str,
        arc: &'static ArcDef,
        store: Store,
    ) -> Result<(String, Option<(Box<dyn DynArchive>, Snapshot)>), Violation> {
        let t = model.tri(place, arc);
        let r = match guard(|| (arc.open)(store)) {
            Ok(r) => r,
            Err(m) => return viol("opening panics", format!("{} at {}: {}", arc.name, place, m)),
        };
        let (lenient, absorbed) = self.lenient_paths(real_place, arc);
        match r {
            Err(e) => {
                if t == Tri::Must && absorbed {
                    return viol("a finished archive does not open", format!("{} at {}: {}", arc.name, place, errstr(&e)));
                }
                self.count("probe:open_refused");
                Ok((errcat(&e), None))
            }
            Ok(a) => {
                if t == Tri::Never {
                    return viol("an unfinished archive opens", format!("{} at {}", arc.name, place));
                }
                let mut snap = Snapshot::new();
                let res = guard(|| check_archive(model, place, arc, &*a, "", &lenient, &mut snap));
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => return Err(v),
                    Err(m) => return viol("reading an opened archive panics", format!("{} at {}: {}", arc.name, place, m)),
                }
                self.count("probe:opened");
                Ok(("ok".into(), Some((a, snap))))
            }
        }
    }

    fn op_open(&mut self, op: &Op) -> Result<String, Violation> {
        let arc = match by_name(op.s("arc")) {
            Some(a) => a,
            None => return Ok("skip".into()),
        };
        let (store, place, ssid) = match self.w.stores.get(&op.u("s")) {
            Some(s) => (s.store.clone(), s.place.clone(), s.sid),
            None => return Ok("skip".into()),
        };
        let model = std::mem::replace(&mut self.model, Model::default());
        let r = self.open_and_check(&model, &place, &place, arc, store);
        self.model = model;
        let (s, a) = r?;
        if let Some((a, snap)) = a {
            let shown: Vec<String> = snap.iter().map(|(k, v)| format!("{}{}", k, if v.is_some() { "+" } else { "-" })).collect();
            let mut h = 0;
            for b in shown.join(",").bytes() {
                h = mix2(h, u64::from(b));
            }
            if op.has("a") {
                let mut sids = BTreeMap::new();
                fn subs(arc: &'static ArcDef, rel: &str, out: &mut Vec<String>) {
                    for p in arc.parts {
                        if let PartKind::Sub(s) = p.kind {
                            let r = join(rel, p.name);
                            subs(s, &r, out);
                            out.push(r);
                        }
                    }
                }
                let mut rels = vec![];
                subs(arc, "", &mut rels);
                for r in rels {
                    let i = self.sid();
                    sids.insert(r, i);
                }
                let slot = ASlot {
                    a,
                    arc,
                    place,
                    snap,
                    stale: false,
                    sids: Rc::new(sids),
                    rel: String::new(),
                    store_sid: Some(ssid),
                };
                let old = self.w.archives.insert(op.u("a"), slot);
                self.drop_dependent_views();
                drop(old);
            }
            return Ok(format!("ok {:x}", h));
        }
        Ok(s)
    }

    fn op_reread(&mut self, op: &Op) -> Result<String, Violation> {
        let a = match self.w.archives.get(&op.u("a")) {
            Some(a) if !a.stale => a,
            _ => return Ok("skip".into()),
        };
        match guard(|| check_same(a.arc, &*a.a, "", &a.snap)) {
            Ok(r) => r?,
            Err(m) => return viol("reading an opened archive panics", m),
        }
        Ok("ok".into())
    }

    fn op_dupa(&mut self, op: &Op) -> Result<String, Violation> {
        let n = match self.w.archives.get(&op.u("from")) {
            Some(a) => ASlot {
                a: a.a.dup(),
                arc: a.arc,
                place: a.place.clone(),
                snap: a.snap.clone(),
                stale: a.stale,
                sids: a.sids.clone(),
                rel: a.rel.clone(),
                store_sid: a.store_sid,
            },
            None => return Ok("skip".into()),
        };
        let old = self.w.archives.insert(op.u("a"), n);
        self.drop_dependent_views();
        drop(old);
        Ok("ok".into())
    }

    fn op_suba(&mut self, op: &Op) -> Result<String, Violation> {
        let n = match self.w.archives.get(&op.u("from")) {
            Some(a) => {
                let part = match a.arc.part(op.s("part")) {
                    Some(p) => p,
                    None => return Ok("skip".into()),
                };
                let sub = match part.kind {
                    PartKind::Sub(s) => s,
                    _ => return Ok("skip".into()),
                };
                match a.a.sub(part.name) {
                    None => return Ok("absent".into()),
                    Some(s) => {
                        let pre = format!("{}/", part.name);
                        let snap = a
                            .snap
                            .iter()
                            .filter(|(k, _)| k.starts_with(&pre))
                            .map(|(k, v)| (k[pre.len()..].to_string(), v.clone()))
                            .collect();
                        ASlot {
                            a: s.dup(),
                            arc: sub,
                            place: join(&a.place, part.name),
                            snap,
                            stale: a.stale,
                            sids: a.sids.clone(),
                            rel: join(&a.rel, part.name),
                            store_sid: None,
                        }
                    }
                }
            }
            None => return Ok("skip".into()),
        };
        let old = self.w.archives.insert(op.u("a"), n);
        self.drop_dependent_views();
        drop(old);
        Ok("ok".into())
    }

    fn op_hold(&mut self, op: &Op) -> Result<String, Violation> {
        let (v, expect, sid, path) = match self.w.archives.get(&op.u("a")) {
            Some(a) if !a.stale => {
                let part = match a.arc.part(op.s("part")) {
                    Some(p) if !p.is_sub() => p,
                    _ => return Ok("skip".into()),
                };
                let expect = match a.snap.get(part.name) {
                    Some(Some(c)) => (**c).clone(),
                    _ => return Ok("absent".into()),
                };
                let v = match guard(|| a.a.hold(part.name)) {
                    Ok(Some(v)) => v,
                    Ok(None) => return viol("opened archive changed", format!("{} vanished", part.name)),
                    Err(m) => return viol("reading an opened archive panics", m),
                };
                let sid = if a.rel.is_empty() {
                    match a.store_sid {
                        Some(s) => s,
                        None => return Ok("skip".into()),
                    }
                } else {
                    match a.sids.get(&a.rel) {
                        Some(s) => *s,
                        None => return Ok("skip".into()),
                    }
                };
                (v, expect, sid, join(&a.place, part.name))
            }
            _ => return Ok("skip".into()),
        };
        let paths = vec![path];
        self.w.views.insert(op.u("v"), VSlot { v, expect, sid, paths, stale: false });
        Ok("ok".into())
    }

    /// holds on to a byte slice obtained from the storage itself
    fn op_rhold(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, sid) = match self.w.stores.get(&op.u("s")) {
            Some(s) => (s.store.clone(), s.place.clone(), s.sid),
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("part"));
        let (want, schema) = match self.model.parts.get(&path) {
            Some(PState { settled: Some(c), kind, schema, .. }) => match payload(kind, c) {
                Payload::One(o) => (o, schema.clone()),
                Payload::Two(_, o) => (o, schema.clone()),
            },
            _ => return Ok("skip".into()),
        };
        let st: &'static dyn ResourceStorage = unsafe { &*(&*store as *const dyn ResourceStorage) };
        let r = match guard(|| st.read(op.s("part"), &schema)) {
            Ok(r) => r,
            Err(m) => return viol("reading a resource panics", m),
        };
        match r {
            Ok(b) => {
                if b != &want[..] {
                    return viol("finished part reads back differently", format!("{} (raw)", path));
                }
                let paths = vec![path];
                self.w.views.insert(
                    op.u("v"),
                    VSlot { v: Box::new(HeldRaw(b)), expect: Content::Raw(want), sid, paths, stale: false },
                );
                Ok("ok".into())
            }
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("a finished part cannot be read", format!("{}: {}", path, errstr(&e)));
                }
                Ok(errcat(&e))
            }
        }
    }

    fn op_chkv(&mut self, op: &Op) -> Result<String, Violation> {
        let keys: Vec<u64> = if op.has("v") { vec![op.u("v")] } else { self.w.views.keys().cloned().collect() };
        let mut n = 0;
        for k in keys {
            let v = match self.w.views.get(&k) {
                Some(v) if !v.stale => v,
                _ => continue,
            };
            n += 1;
            match guard(|| v.v.reread()) {
                Ok(Ok(cs)) => {
                    for c in cs {
                        if c != v.expect {
                            return viol(
                                "a view that is still owned changed",
                                format!("{:?}: was {:?}, now {:?}", v.paths, v.expect, c),
                            );
                        }
                    }
                }
                Ok(Err(e)) => return viol("a view that is still owned changed", format!("{:?}: {}", v.paths, e)),
                Err(m) => return viol("a view that is still owned panics", format!("{:?}: {}", v.paths, m)),
            }
        }
        self.countn("probe:views_checked", n);
        Ok(format!("{}", n))
    }

    fn op_drop(&mut self, op: &Op) -> Result<String, Violation> {
        // take the owners out, drop views that have no owner left, then drop the owners
        let mut olds: Vec<Box<dyn std::any::Any>> = vec![];
        struct Hold<T>(T);
        let _ = &mut olds;
        let (mut a, mut b, mut s) = (None, None, None);
        if op.has("a") {
            a = self.w.archives.remove(&op.u("a")).map(Hold);
        }
        if op.has("b") {
            b = self.w.builders.remove(&op.u("b")).map(Hold);
        }
        if op.has("s") {
            s = self.w.stores.remove(&op.u("s")).map(Hold);
        }
        if op.has("v") {
            self.w.views.remove(&op.u("v"));
        }
        self.drop_dependent_views();
        if let Err(m) = guard(move || {
            drop(a);
            drop(b);
            drop(s);
        }) {
            return viol("dropping a handle panics", m);
        }
        Ok("ok".into())
    }

    // ---- whole-disk checks -------------------------------------------------------------------

    /// reads every part of the model below a store through the storage itself
    fn check_resources(&mut self, model: &Model, place: &str, store: &Store, only: Option<&str>) -> Result<(), Violation> {
        for (path, st) in &model.parts {
            let pre = format!("{}/", place);
            if !path.starts_with(&pre) {
                continue;
            }
            if let Some(o) = only {
                if path != o {
                    continue;
                }
            }
            let rel = &path[pre.len()..];
            // a part of a subarchive is read through the subdirectory's storage
            let (dir, name) = match rel.rfind('/') {
                Some(i) => (&rel[..i], &rel[i + 1..]),
                None => ("", rel),
            };
            let s: Store = if dir.is_empty() { store.clone() } else { store.subdir(dir) };
            let mut names = vec![(name.to_string(), st.schema.to_string(), false)];
            if let PartKind::Multi { .. } = st.kind {
                names.push((format!("{}_index", name), format!("index({})", st.schema), true));
            }
            for (n, schema, is_index) in names {
                let pick = |c: &Content| match payload(st.kind, c) {
                    Payload::One(o) => o,
                    Payload::Two(i, o) => {
                        if is_index {
                            i
                        } else {
                            o
                        }
                    }
                };
                let r = match guard(|| s.read(&n, &schema).map(|b| b.to_vec())) {
                    Ok(r) => r,
                    Err(m) => return viol("reading a resource panics", format!("{}: {}", path, m)),
                };
                match (&st.settled, r) {
                    (Some(c), Ok(b)) => {
                        if pick(c) != b {
                            return viol("finished part has wrong bytes", format!("{} ({})", path, n));
                        }
                    }
                    (Some(_), Err(e)) => {
                        if !Self::any_fault_fired() {
                            return viol("a finished part cannot be read", format!("{} ({}): {}", path, n, errstr(&e)));
                        }
                    }
                    (None, Err(_)) => {}
                    (None, Ok(b)) => {
                        if let PartKind::Multi { .. } = st.kind {
                            continue; // visible only together with its other half
                        }
                        if !st.maybe.iter().any(|c| pick(c) == b) {
                            return viol(
                                "part shows content that no finished write gave it",
                                format!("{} ({} bytes)", path, b.len()),
                            );
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn op_res(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place) = match self.w.stores.get(&op.u("s")) {
            Some(s) => (s.store.clone(), s.place.clone()),
            None => return Ok("skip".into()),
        };
        let only = if op.has("part") { Some(join(&place, op.s("part"))) } else { None };
        let model = std::mem::replace(&mut self.model, Model::default());
        let r = self.check_resources(&model, &place, &store, only.as_ref().map(|s| &s[..]));
        self.model = model;
        r?;
        Ok("ok".into())
    }

    /// Compares the whole tree of a disk with the canonical bytes of everything finished on it.
    fn op_tree(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let disk = op.s("disk");
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut free: BTreeSet<String> = BTreeSet::new();
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        let strip = |p: &str| -> String {
            if p == disk {
                String::new()
            } else {
                p[disk.len() + 1..].to_string()
            }
        };
        let on = |p: &str| p == disk || p.starts_with(&format!("{}/", disk));
        let mut adddirs = |p: &str| {
            let p = strip(p);
            let mut cur = String::new();
            for c in p.split('/').filter(|c| !c.is_empty()) {
                cur = join(&cur, c);
                dirs.insert(cur.clone());
            }
        };
        for ((place, name), sig) in &self.model.sigs {
            if !on(place) {
                continue;
            }
            adddirs(place);
            let arc = by_name(name).unwrap();
            for (n, b) in signature_files(arc) {
                let f = join(&strip(place), &n);
                if *sig == Sig::Settled {
                    want.insert(f, b);
                } else {
                    free.insert(f);
                }
            }
        }
        for (path, st) in &self.model.parts {
            if !on(path) {
                continue;
            }
            let (dir, name) = match path.rfind('/') {
                Some(i) => (&path[..i], &path[i + 1..]),
                None => ("", &path[..]),
            };
            adddirs(dir);
            let base = strip(dir);
            // names live as long as the program, as in generated code
            let pd = PartDef { name: "?", kind: PartKind::Raw, schema: "?", optional: false };
            let _ = pd;
            match &st.settled {
                Some(c) => match payload(st.kind, c) {
                    Payload::One(o) => {
                        want.insert(join(&base, name), frame(&o));
                        want.insert(join(&base, &format!("{}.schema", name)), st.schema.as_bytes().to_vec());
                    }
                    Payload::Two(i, o) => {
                        want.insert(join(&base, name), frame(&o));
                        want.insert(join(&base, &format!("{}.schema", name)), st.schema.as_bytes().to_vec());
                        want.insert(join(&base, &format!("{}_index", name)), frame(&i));
                        want.insert(
                            join(&base, &format!("{}_index.schema", name)),
                            format!("index({})", st.schema).into_bytes(),
                        );
                    }
                },
                None => {
                    for s in &["", ".schema", "_index", "_index.schema"] {
                        free.insert(join(&base, &format!("{}{}", name, s)));
                    }
                }
            }
        }
        for (path, data) in &self.litter {
            if on(path) {
                adddirs(&path[..path.rfind('/').unwrap()]);
                want.insert(strip(path), data.clone());
            }
        }
        let root = format!("{}/{}", vfs::ROOT, disk);
        let have = sim().x_files(&root);
        for (n, ino) in &have {
            match want.get(n) {
                Some(b) => {
                    let got = sim().x_read_ino(*ino);
                    if got != *b {
                        let at = got.iter().zip(b.iter()).position(|(x, y)| x != y).unwrap_or(got.len().min(b.len()));
                        return viol(
                            "stored bytes are not the canonical encoding",
                            format!("{}: {} bytes stored, {} expected, first difference at {}", n, got.len(), b.len(), at),
                        );
                    }
                }
                None => {
                    if !free.contains(n) {
                        return viol("stray file", n.clone());
                    }
                }
            }
        }
        for n in want.keys() {
            if !have.contains_key(n) {
                return viol("file of a finished part is missing", n.clone());
            }
        }
        for d in sim().x_dirs(&root) {
            if !dirs.contains(&d) && !op.has("dirs") && self.env_no == 0 {
                return viol("stray directory", d);
            }
        }
        self.count("probe:trees_compared");
        Ok(format!("{}", have.len()))
    }

    // ---- crashes -----------------------------------------------------------------------------

    /// model before and after operation `id`
    fn around(&self, id: u32) -> (Model, Model) {
        let i = self.order.iter().position(|x| *x == id);
        match i {
            Some(i) => {
                let b = self.snaps[&id].clone();
                let a = match self.order.get(i + 1) {
                    Some(n) => self.snaps[n].clone(),
                    None => self.model.clone(),
                };
                (b, a)
            }
            None => (self.model.clone(), self.model.clone()),
        }
    }

    fn eval_image(&mut self, m: &Model, disk: &str, image: &str, loss: bool, what: &str) -> Result<(), Violation> {
        let root = format!("{}/{}", vfs::ROOT, image);
        let h = sim().x_hash(&root);
        self.out.images.push(h);
        self.count("images");
        let mut roots: Vec<(String, &'static str)> = m.roots(disk);
        // archives that may not exist yet at this point are opened, too
        for (p, n) in self.model.roots(disk) {
            if !roots.iter().any(|(q, o)| *q == p && *o == n) {
                roots.push((p, n));
            }
        }
        let mut done: BTreeSet<String> = BTreeSet::new();
        for (place, name) in roots {
            let arc = by_name(name).unwrap();
            let real = format!("{}{}", image, &place[disk.len()..]);
            let store: Store = FileResourceStorage::new(native(&format!("{}/{}", vfs::ROOT, real)));
            let r = self.open_and_check(m, &place, &real, arc, store.clone()).and_then(|_| {
                if done.insert(place.clone()) {
                    self.check_resources(m, &place, &store, None)
                } else {
                    Ok(())
                }
            });
            if let Err(mut v) = r {
                v.class = format!("after a crash: {}", v.class);
                v.detail = format!("{} [{}{}]", v.detail, what, if loss { ", recent writes lost" } else { "" });
                return Err(v);
            }
        }
        Ok(())
    }

    fn op_crash(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let log = match sim().log.take() {
            Some(l) => l,
            None => return Ok("skip".into()),
        };
        let r = self.crash_inner(op, &log);
        sim().log = Some(log);
        r
    }

    fn crash_inner(&mut self, op: &Op, log: &[vfs::Mut]) -> Result<String, Violation> {
        let disk = op.s("disk").to_string();
        let ino = match sim().ino_of(&format!("{}/{}", vfs::ROOT, disk)) {
            Some(i) => i,
            None => return Ok("skip".into()),
        };
        let cur = op.id;
        // mutation index within its operation
        let mut pos: Vec<(u32, u32)> = vec![];
        let mut last = (u32::max_value(), 0);
        for m in log {
            last = if last.0 == m.op { (m.op, last.1 + 1) } else { (m.op, 0) };
            pos.push(last);
        }
        let only: Option<(u32, u32, i64)> = if op.has("at") {
            let w: Vec<&str> = op.s("at").split(':').collect();
            Some((w[0].parse().unwrap_or(0), w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(-1)))
        } else {
            None
        };
        let mut rng = Rng::new(mix2(op.u("seed"), 0xC4A5));
        let loss = op.s("mode") == "loss";
        let max = if op.has("max") { op.u("max") } else { 400 } as usize;
        let img = |s: &mut Self| -> String {
            s.image_no += 1;
            format!("x{}", s.image_no)
        };
        let mut done = 0;
        if loss {
            // crash points at random places; per file a random number of latest mutations is lost
            let points: Vec<usize> = match only {
                Some((o, k, _)) => log.iter().enumerate().filter(|(i, _)| pos[*i] == (o, k)).map(|(i, _)| i).collect(),
                None => (0..max).map(|_| rng.idx(log.len().max(1))).collect(),
            };
            for j in points {
                if j >= log.len() {
                    continue;
                }
                let lseed = if op.has("lseed") { op.u("lseed") } else { rng.next() >> 16 };
                let image = img(self);
                let keep = Self::loss_keep(&log[..=j], lseed);
                let mut sh = Shadow::new(ino, &image_path(&image));
                let mut seen: BTreeMap<u64, u64> = BTreeMap::new();
                for m in &log[..=j] {
                    match mut_file(&m.kind) {
                        None => sh.apply(&m.kind, None),
                        Some(f) => {
                            let n = seen.entry(f).or_insert(0);
                            let k = keep.get(&f).cloned().unwrap_or((u64::max_value(), 0));
                            if *n < k.0 {
                                sh.apply(&m.kind, None);
                            } else if *n == k.0 {
                                if let MutKind::Write { data, .. } = &m.kind {
                                    sh.apply(&m.kind, Some((k.1 % (data.len() as u64 + 1)) as usize));
                                }
                            }
                            *n += 1;
                        }
                    }
                }
                let (b, a) = self.around(log[j].op);
                let m = b.merge(&a).demote();
                let what = format!("op {} mutation {}", pos[j].0, pos[j].1);
                let r = self.eval_image(&m, &disk, &image, true, &what);
                sim().x_remove(&image_path(&image));
                if let Err(mut v) = r {
                    v.crash = Some(format!("{}:{}:-1 lseed={}", pos[j].0, pos[j].1, lseed));
                    return Err(v);
                }
                done += 1;
            }
        } else {
            let relevant: Vec<usize> = (0..log.len()).collect();
            let total = relevant.len();
            let image = img(self);
            let mut sh = Shadow::new(ino, &image_path(&image));
            for j in 0..=log.len() {
                // the state after j mutations: inside the operation of mutation j (if it goes on)
                let want_here = match only {
                    Some((o, k, _)) => j < log.len() && pos[j] == (o, k),
                    None => total <= max || rng.below(total as u64) < max as u64,
                };
                if want_here {
                    let (b, a) = if j < log.len() {
                        let (b, a) = self.around(log[j].op);
                        if pos[j].1 == 0 {
                            // nothing of this operation has happened yet
                            (b.clone(), b)
                        } else {
                            (b, a)
                        }
                    } else {
                        (self.model.clone(), self.model.clone())
                    };
                    let m = b.merge(&a);
                    let (po, pk) = if j < log.len() { pos[j] } else { (cur, 0) };
                    let mut cuts: Vec<i64> = vec![-1];
                    if j < log.len() {
                        if let MutKind::Write { data, .. } = &log[j].kind {
                            let n = data.len();
                            if n > 1 {
                                let mut c = vec![1, n - 1, n / 2, 1 + rng.idx(n - 1)];
                                if n > 8 {
                                    c.push(8);
                                    c.push(n - 8);
                                }
                                c.sort();
                                c.dedup();
                                c.retain(|x| *x > 0 && *x < n);
                                if n > (1 << 16) {
                                    c.truncate(2);
                                }
                                cuts.extend(c.into_iter().map(|x| x as i64));
                            }
                        }
                    }
                    if let Some((_, _, t)) = only {
                        cuts = vec![t];
                    }
                    cuts.sort();
                    for t in cuts {
                        let mm;
                        let m = if t > 0 {
                            if j >= log.len() {
                                continue;
                            }
                            let n = match &log[j].kind {
                                MutKind::Write { data, .. } => data.len(),
                                _ => continue,
                            };
                            if t as usize >= n {
                                continue;
                            }
                            // a prefix of this write is there
                            sh.apply(&log[j].kind, Some(t as usize));
                            let (b, a) = self.around(log[j].op);
                            mm = b.merge(&a);
                            &mm
                        } else {
                            &m
                        };
                        let what = format!("op {} mutation {}{}", po, pk, if t > 0 { format!(" torn at {}", t) } else { String::new() });
                        let r = self.eval_image(m, &disk, &image, false, &what);
                        if let Err(mut v) = r {
                            sim().x_remove(&image_path(&image));
                            v.crash = Some(format!("{}:{}:{}", po, pk, t));
                            return Err(v);
                        }
                        done += 1;
                    }
                }
                if j < log.len() {
                    sh.apply(&log[j].kind, None);
                }
            }
            sim().x_remove(&image_path(&image));
        }
        Ok(format!("{}", done))
    }

    /// for every file: how many of its mutations survive, and how much of the next one
    fn loss_keep(log: &[vfs::Mut], lseed: u64) -> BTreeMap<u64, (u64, u64)> {
        let mut n: BTreeMap<u64, u64> = BTreeMap::new();
        let mut first: Vec<u64> = vec![];
        for m in log {
            if let Some(f) = mut_file(&m.kind) {
                if !n.contains_key(&f) {
                    first.push(f);
                }
                *n.entry(f).or_insert(0) += 1;
            }
        }
        let mut out = BTreeMap::new();
        // most files lose nothing: a few lose their latest writes
        let heavy = mix2(lseed, 1) % 3;
        for (i, f) in first.iter().enumerate() {
            let r = mix2(lseed, 100 + i as u64);
            let total = n[f];
            let lose = match heavy {
                0 => r % 8 == 0,
                1 => r % 2 == 0,
                _ => r % 16 == 0,
            };
            if !lose {
                continue;
            }
            let r2 = mix2(r, 3);
            let k = total - 1 - (r2 % 3).min(total - 1);
            out.insert(*f, (k, mix2(r, 4)));
        }
        out
    }

    /// The process dies at a point in the past of the log, and everything goes on from that disk.
    fn op_reboot(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let disk = op.s("disk").to_string();
        let to = op.s("to").to_string();
        let ino = match sim().ino_of(&format!("{}/{}", vfs::ROOT, disk)) {
            Some(i) => i,
            None => return Ok("skip".into()),
        };
        let w: Vec<&str> = op.s("at").split(':').collect();
        let (o, k, t): (u32, u32, i64) = if w.len() == 3 {
            (w[0].parse().unwrap_or(0), w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(-1))
        } else {
            (0, 0, -1)
        };
        let log = match sim().log.take() {
            Some(l) => l,
            None => return Ok("skip".into()),
        };
        let mut sh = Shadow::new(ino, &image_path(&to));
        let mut last = (u32::max_value(), 0);
        let mut model = None;
        for m in &log {
            last = if last.0 == m.op { (m.op, last.1 + 1) } else { (m.op, 0) };
            if last == (o, k) {
                let (b, a) = self.around(m.op);
                model = Some(if k == 0 && t <= 0 { b } else { b.merge(&a) });
                if let MutKind::Write { data, .. } = &m.kind {
                    if t > 0 && (t as usize) < data.len() {
                        sh.apply(&m.kind, Some(t as usize));
                    }
                }
                break;
            }
            sh.apply(&m.kind, None);
        }
        sim().log = Some(log);
        let model = model.unwrap_or_else(|| self.model.clone());
        let nm = model.rebase(&disk, &to);
        self.model.parts.extend(nm.parts);
        self.model.sigs.extend(nm.sigs);
        self.count("probe:reboots");
        Ok("ok".into())
    }

    // ---- other programs ------------------------------------------------------------------------

    /// Where data lives that handles still show: it went from `from` to `to`.
    fn follow(&mut self, from: &str, to: &str) {
        let re = |p: &mut String| {
            if *p == from {
                *p = to.to_string();
            } else if p.starts_with(&format!("{}/", from)) {
                *p = format!("{}{}", to, &p[from.len()..]);
            }
        };
        for v in self.w.views.values_mut() {
            v.paths.iter_mut().for_each(re);
        }
        for a in self.w.archives.values_mut() {
            re(&mut a.place);
        }
    }

    /// Somebody deletes, moves or copies finished directories, as people do with data sets.
    fn op_env(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let (place, _) = self.place_of(op);
        let dir = format!("{}/{}", vfs::ROOT, place);
        if !sim().x_exists(&dir) {
            return Ok("skip absent".into());
        }
        let below = |p: &str, place: &str| p == place || p.starts_with(&format!("{}/", place));
        let open: Vec<String> =
            self.w.writers.values().map(|w| w.path.clone()).chain(self.w.streams.values().map(|s| s.path.clone())).collect();
        if open.iter().any(|p| below(p, &place)) {
            return Ok("skip busy".into());
        }
        self.env_no += 1;
        match &op.name[..] {
            "hide" => return self.op_hide(op, &place, &dir),
            "unhide" => {
                let h = match self.hidden.remove(&op.u("h")) {
                    Some(h) => h,
                    None => return Ok("skip".into()),
                };
                let new = self.model.parts.contains_key(&h.path) || h.tree_no != self.tree_no;
                if new || sim().x_exists(&h.from) || self.busy(&h.path) {
                    sim().env_remove(&h.to);
                    return Ok("too late".into());
                }
                sim().env_rename(&h.to, &h.from);
                if let Some(s) = h.state {
                    self.model.parts.insert(h.path, s);
                }
                return Ok("ok".into());
            }
            _ => self.tree_no += 1,
        }
        let gone = format!("gone{}/{}", self.env_no, place);
        match &op.name[..] {
            "rmtree" => {
                for n in sim().x_names(&dir) {
                    sim().env_remove(&format!("{}/{}", dir, n));
                }
                if !op.s("root").is_empty() {
                    sim().env_remove(&dir);
                }
                self.follow(&place, &gone);
                self.model.parts.retain2(|p| !below(p, &place));
                self.model.sigs.retain2(|(p, _)| !below(p, &place));
                self.count("probe:archives_removed");
            }
            "rmpart" => {
                let arc = match by_name(op.s("arc")) {
                    Some(a) => a,
                    None => return Ok("skip".into()),
                };
                let p = match arc.part(op.s("part")) {
                    Some(p) => p,
                    None => return Ok("skip".into()),
                };
                for n in part_file_names(p) {
                    sim().env_remove(&format!("{}/{}", dir, n));
                }
                let path = join(&place, p.name);
                self.follow(&path, &join(&gone, p.name));
                self.model.parts.retain2(|q| !below(q, &path));
                self.model.sigs.retain2(|(q, _)| !below(q, &path));
                self.count("probe:parts_removed");
            }
            "mvtree" | "cptree" => {
                let target = format!("{}/{}", if op.has("todisk") { op.s("todisk") } else { op.s("disk") }, op.s("to"));
                let tdir = format!("{}/{}", vfs::ROOT, target);
                if op.s("root").is_empty() || below(&target, &place) || sim().x_exists(&tdir) {
                    return Ok("skip".into());
                }
                sim().x_mkdirs(&format!("{}/{}", vfs::ROOT, target.split('/').next().unwrap()));
                let nm = self.model.rebase(&place, &target);
                if op.name == "mvtree" {
                    sim().env_mkdirs(&tdir[..tdir.rfind('/').unwrap()]);
                    sim().env_rename(&dir, &tdir);
                    self.follow(&place, &target);
                    self.model.parts.retain2(|p| !below(p, &place));
                    self.model.sigs.retain2(|(p, _)| !below(p, &place));
                    self.count("probe:archives_moved");
                } else {
                    sim().env_copy(&dir, &tdir);
                    self.count("probe:archives_copied");
                }
                self.model.parts.extend(nm.parts);
                self.model.sigs.extend(nm.sigs);
            }
            _ => unreachable!(),
        }
        Ok("ok".into())
    }

    /// Somebody leaves a file in the directory that does not belong to any archive.
    fn op_litter(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let (place, _) = self.place_of(op);
        let name = op.s("name");
        let known = all().iter().any(|a| {
            signature_files(a).contains_key(name) || a.parts.iter().any(|p| p.name == name || part_file_names(p).iter().any(|n| n == name))
        });
        let dir = format!("{}/{}", vfs::ROOT, place);
        let file = format!("{}/{}", dir, name);
        sim().x_mkdirs(&format!("{}/{}", vfs::ROOT, op.s("disk")));
        sim().env_mkdirs(&dir);
        if known || sim().x_exists(&file) {
            return Ok("skip".into());
        }
        let mut r = Rng::new(op.u("seed"));
        let raw: Vec<u8> = (0..r.below(40)).map(|_| r.next() as u8).collect();
        let data = match op.s("what") {
            "frame" => frame(&raw),
            "sig" => frame(&[]),
            "schema" => by_name(op.s("arc")).map_or(vec![], |a| a.schema.as_bytes().to_vec()),
            _ => raw,
        };
        sim().x_write(&file, &data);
        self.litter.insert(join(&place, name), data);
        self.count("probe:foreign_files");
        Ok("ok".into())
    }

    /// One file of a part is missing for a while.
    fn op_hide(&mut self, op: &Op, place: &str, dir: &str) -> Result<String, Violation> {
        let p = match by_name(op.s("arc")).and_then(|a| a.part(op.s("part"))) {
            Some(p) if !p.is_sub() => p,
            _ => return Ok("skip".into()),
        };
        let path = join(place, p.name);
        let names = part_file_names(p);
        let name = &names[op.u("which") as usize % names.len()];
        let from = format!("{}/{}", dir, name);
        if self.busy(&path) || !sim().x_exists(&from) || self.hidden.contains_key(&op.u("h")) {
            return Ok("skip".into());
        }
        let away = format!("{}/{}/hid", vfs::ROOT, place.split('/').next().unwrap());
        sim().env_mkdirs(&away);
        let to = format!("{}/{}", away, op.u("h"));
        sim().env_rename(&from, &to);
        let state = self.model.parts.remove(&path);
        let tree_no = self.tree_no;
        self.hidden.insert(op.u("h"), Hidden { from, to, path, state, tree_no });
        self.count("probe:files_hidden");
        Ok("ok".into())
    }

    // ---- damage at rest ----------------------------------------------------------------------

    fn op_dmg(&mut self, op: &Op) -> Result<String, Violation> {
        if self.opt.force_mem {
            return Ok("skip".into());
        }
        let disk = op.s("disk").to_string();
        let arc = match by_name(op.s("arc")) {
            Some(a) => a,
            None => return Ok("skip".into()),
        };
        let src = image_path(&disk);
        if !sim().x_exists(&src) {
            return Ok("skip".into());
        }
        self.image_no += 1;
        let image = format!("x{}", self.image_no);
        let root = image_path(&image);
        sim().x_copy(&src, &root);
        let mut kinds = vec![];
        let mut odd = false;
        for act in op.s("acts").split(';').filter(|a| !a.is_empty()) {
            let w: Vec<&str> = act.split(':').collect();
            let path = |i: usize| format!("{}/{}", root, w.get(i).cloned().unwrap_or(""));
            let num = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            if w[0] == "file" && sim().x_exists(&path(1)) {
                // a file where a directory should be
                sim().x_remove(&path(1));
                sim().x_write(&path(1), &frame(&[]));
                kinds.push("file".into());
                odd = true;
                continue;
            }
            let mut data = match sim().x_read(&path(1)) {
                Some(d) => d,
                None => continue,
            };
            kinds.push(w[0].to_string());
            match w[0] {
                "flip" => {
                    if !data.is_empty() {
                        let i = num(2) as usize % data.len();
                        data[i] ^= 1 << (num(3) % 8);
                        sim().x_write(&path(1), &data);
                    }
                }
                "byte" => {
                    if !data.is_empty() {
                        let i = num(2) as usize % data.len();
                        data[i] = num(3) as u8;
                        sim().x_write(&path(1), &data);
                    }
                }
                "trunc" => {
                    let n = num(2) as usize % (data.len() + 1);
                    data.truncate(n);
                    sim().x_write(&path(1), &data);
                }
                "ext" => {
                    for _ in 0..num(2) {
                        data.push(num(3) as u8);
                    }
                    sim().x_write(&path(1), &data);
                }
                "fit" => {
                    // another amount of data, with a header that says so
                    let n = num(2) as usize;
                    if data.len() >= 16 {
                        let mut payload = data[8..data.len() - 8].to_vec();
                        payload.resize(n, num(3) as u8);
                        sim().x_write(&path(1), &frame(&payload));
                    }
                }
                "rm" => sim().x_remove(&path(1)),
                "dir" => {
                    // a directory where a file should be
                    sim().x_remove(&path(1));
                    sim().x_mkdirs(&path(1));
                    odd = true;
                }
                "hdr" => {
                    if data.len() >= 8 {
                        data[..8].copy_from_slice(&num(2).to_le_bytes());
                        sim().x_write(&path(1), &data);
                    }
                }
                "hdrd" => {
                    // relative to the right value
                    if data.len() >= 8 {
                        let right = (data.len() as u64).wrapping_sub(16);
                        let d: i64 = w.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
                        data[..8].copy_from_slice(&right.wrapping_add(d as u64).to_le_bytes());
                        sim().x_write(&path(1), &data);
                    }
                }
                "copy" => {
                    if let Some(d2) = sim().x_read(&path(2)) {
                        sim().x_write(&path(1), &d2);
                    }
                }
                "swap" => {
                    if let Some(d2) = sim().x_read(&path(2)) {
                        sim().x_write(&path(1), &d2);
                        sim().x_write(&path(2), &data);
                    }
                }
                "cut" => {
                    // remove a byte in the middle
                    if !data.is_empty() {
                        let i = num(2) as usize % data.len();
                        data.remove(i);
                        sim().x_write(&path(1), &data);
                    }
                }
                "txt" => {
                    if let Ok(t) = String::from_utf8(data.clone()) {
                        sim().x_write(&path(1), retext(&t, num(2)).as_bytes());
                    }
                }
                "ins" => {
                    let i = num(2) as usize % (data.len() + 1);
                    data.insert(i, num(3) as u8);
                    sim().x_write(&path(1), &data);
                }
                _ => {}
            }
        }
        for k in &kinds {
            *sim().total_fired.entry(format!("damage:{}", k)).or_insert(0) += 1;
        }
        let h = sim().x_hash(&root);
        self.out.images.push(h);
        self.count("images");
        let files = sim().x_tree(&root);
        let rel = op.s("root");
        let real = join(&image, rel);
        let store: Store = FileResourceStorage::new(native(&format!("{}/{}", vfs::ROOT, real)));
        let r = self.dmg_eval(&files, rel, &real, arc, store, odd);
        sim().x_remove(&root);
        r.map_err(|mut v| {
            v.class = format!("damaged files: {}", v.class);
            v
        })
    }

    fn dmg_eval(
        &mut self,
        files: &BTreeMap<String, Vec<u8>>,
        rel: &str,
        real: &str,
        arc: &'static ArcDef,
        store: Store,
        odd: bool,
    ) -> Result<String, Violation> {
        let errs = damage_errors(files, rel, arc);
        let r = match guard(|| (arc.open)(store)) {
            Ok(r) => r,
            Err(m) => return viol("opening panics", m),
        };
        let (lenient, absorbed) = self.lenient_paths(real, arc);
        match r {
            Err(e) => {
                let c = errcat(&e);
                if !absorbed {
                    return Ok(c);
                }
                if errs.is_empty() {
                    return viol("an archive without damage to its structure is refused", errstr(&e));
                }
                if !errs.contains(&c) && !odd {
                    return viol("damage is reported as a different error", format!("{} instead of {:?}", errstr(&e), errs));
                }
                self.count("probe:damage_refused");
                Ok(c)
            }
            Ok(a) => {
                if !errs.is_empty() {
                    return viol("a damaged archive opens", format!("{:?}", errs));
                }
                damage_check(files, rel, arc, &*a, "", &lenient)?;
                self.count("probe:damage_absorbed");
                Ok("ok".into())
            }
        }
    }

    // ---- storage-level operations --------------------------------------------------------------

    fn store_of(&self, op: &Op) -> Option<(Store, String, bool, u32)> {
        self.w.stores.get(&op.u("s")).map(|s| (s.store.clone(), s.place.clone(), s.mem, s.sid))
    }

    /// Names of directories are not names of resources.
    fn is_dir(&self, path: &str) -> bool {
        let pre = format!("{}/", path);
        self.model.parts.keys().chain(self.raws.keys()).any(|k| k.starts_with(&pre))
            || self.model.sigs.keys().any(|(k, _)| k == path || k.starts_with(&pre))
    }

    fn op_wres(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, _, _) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if op.s("name").ends_with("_index") {
            return Ok("skip index name".into());
        }
        if self.busy(&path) {
            return Ok("skip busy".into());
        }
        let schema = unquote(op.s("schema"));
        let c = Rc::new(near_content(&RAW_KIND, op.u("seed"), op.u("n"), op.u("tw")));
        self.touch(&path);
        self.raws.remove(&path);
        self.raws.remove(&format!("{}.schema", path));
        let e = self.model.parts.entry(path.clone()).or_insert_with(|| PState::fresh(&RAW_KIND, &schema));
        e.begin();
        if &*e.schema != &schema[..] {
            // another schema: earlier content is no longer readable under it
            *e = PState { tries: e.tries, ..PState::fresh(&RAW_KIND, &schema) };
        }
        e.kind = &RAW_KIND;
        let data = match &*c {
            Content::Raw(d) => d.clone(),
            _ => unreachable!(),
        };
        let r = match guard(|| store.write(op.s("name"), &schema, &data)) {
            Ok(r) => r,
            Err(m) => return viol("writing a resource panics", m),
        };
        self.strict("writing a resource", r.is_err(), 0)?;
        let st = self.model.parts.get_mut(&path).unwrap();
        match &r {
            Ok(()) => st.settle(c),
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("writing a resource fails without cause", format!("{}: {:?}", path, e));
                }
                st.add(c);
            }
        }
        Ok(iores(&r))
    }

    fn op_rres(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, _, _) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if self.is_dir(&path) {
            return Ok("skip directory".into());
        }
        let schema = unquote(op.s("schema"));
        let r = match guard(|| store.read(op.s("name"), &schema).map(|b| b.to_vec())) {
            Ok(r) => r,
            Err(m) => return viol("reading a resource panics", m),
        };
        if let Some(st) = self.model.parts.get(&path) {
            if let Some(c) = &st.settled {
                match &r {
                    Ok(b) => {
                        if &*st.schema != &schema[..] {
                            return viol("a resource with another schema reads", path);
                        }
                        let want = match payload(st.kind, c) {
                            Payload::One(o) | Payload::Two(_, o) => o,
                        };
                        if *b != want {
                            return viol("finished part has wrong bytes", path);
                        }
                    }
                    Err(e) => {
                        if &*st.schema == &schema[..] && !Self::any_fault_fired() {
                            return viol("a finished part cannot be read", format!("{}: {}", path, errstr(e)));
                        }
                        if &*st.schema != &schema[..] && !Self::any_fault_fired() {
                            match e {
                                RSE::WrongSignature { resource_name, .. } if resource_name == op.s("name") => {}
                                _ => return viol("a wrong schema is reported as another error", errstr(e)),
                            }
                        }
                    }
                }
            } else if let Ok(b) = &r {
                let known = st.maybe.iter().any(|c| match payload(st.kind, c) {
                    Payload::One(o) | Payload::Two(_, o) => o == *b,
                });
                if !known {
                    return viol("part shows content that no finished write gave it", path);
                }
            }
        } else if r.is_ok() && !self.raws.contains_key(&path) && !op.has("any") {
            return viol("part that was never written is visible", path);
        }
        Ok(match r {
            Ok(b) => {
                let mut h = b.len() as u64;
                for x in b {
                    h = mix2(h, u64::from(x));
                }
                format!("ok {:x}", h)
            }
            Err(e) => errcat(&e),
        })
    }

    fn op_rraw(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, _, _) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if self.is_dir(&path) {
            return Ok("skip directory".into());
        }
        let r = match guard(|| store.read_resource(op.s("name")).map(|b| b.to_vec())) {
            Ok(r) => r,
            Err(m) => return viol("reading a resource panics", m),
        };
        if let Some(Some(want)) = self.raws.get(&path) {
            match &r {
                Ok(b) => {
                    if b != want {
                        return viol("a raw stream reads back differently", path);
                    }
                }
                Err(e) => {
                    if !Self::any_fault_fired() {
                        return viol("a raw stream cannot be read", format!("{}: {:?}", path, e));
                    }
                }
            }
        }
        Ok(match r {
            Ok(b) => {
                let mut h = b.len() as u64;
                for x in b {
                    h = mix2(h, u64::from(x));
                }
                format!("ok {:x}", h)
            }
            Err(e) => iocat(&e),
        })
    }

    fn op_ex(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, _, _) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if self.is_dir(&path) {
            return Ok("skip directory".into());
        }
        let r = match guard(|| store.exists(op.s("name"))) {
            Ok(r) => r,
            Err(m) => return viol("querying existence panics", m),
        };
        if !Self::any_fault_fired() {
            let known = self.model.parts.get(&path).map_or(false, |p| p.settled.is_some())
                || self.raws.get(&path).map_or(false, |r| r.is_some());
            if known && !r {
                return viol("a written resource does not exist", path);
            }
            let never = !self.model.parts.contains_key(&path) && !self.raws.contains_key(&path);
            if never && r && op.has("plain") {
                return viol("a resource that was never written exists", path);
            }
        }
        Ok(format!("{}", r))
    }

    fn op_sdir(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, mem) = match self.w.stores.get(&op.u("from")) {
            Some(s) => (s.store.clone(), s.place.clone(), s.mem),
            None => return Ok("skip".into()),
        };
        let dir = op.s("dir");
        let sub = match guard(|| store.subdir(dir)) {
            Ok(s) => s,
            Err(m) => return viol("descending panics", m),
        };
        let sid = self.sid();
        if let Some(old) = self.w.stores.remove(&op.u("s")) {
            self.drop_dependent_views();
            drop(old);
        }
        self.w.stores.insert(op.u("s"), StoreSlot { store: sub, place: join(&place, dir), mem, sid });
        Ok("ok".into())
    }

    fn op_vst(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, mem, sid) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if op.s("name").ends_with("_index") {
            return Ok("skip index name".into());
        }
        if self.busy(&path) || self.w.writers.contains_key(&op.u("w")) {
            return Ok("skip busy".into());
        }
        let schema = unquote(op.s("schema"));
        let kind = if op.name == "vst" { vec_kind() } else { multi_kind() };
        self.touch(&path);
        self.raws.remove(&path);
        self.raws.remove(&format!("{}.schema", path));
        let e = self.model.parts.entry(path.clone()).or_insert_with(|| PState::fresh(kind, &schema));
        e.begin();
        *e = PState { tries: e.tries, ..PState::fresh(kind, &schema) };
        let st: &'static dyn ResourceStorage = unsafe { &*(&*store as *const dyn ResourceStorage) };
        let r: Result<io::Result<Box<dyn DynW>>, String> = guard(|| {
            if op.name == "vst" {
                Ok(Box::new(flatdata::create_external_vector::<T8>(st, op.s("name"), &schema)?) as Box<dyn DynW>)
            } else {
                Ok(Box::new(flatdata::create_multi_vector::<Idx32, PQ>(st, op.s("name"), &schema)?) as Box<dyn DynW>)
            }
        });
        let r = match r {
            Ok(r) => r,
            Err(m) => return viol("starting a writer panics", format!("{}: {}", path, m)),
        };
        self.strict("starting a writer", r.is_err(), 0)?;
        match r {
            Ok(w) => {
                self.w.writers.insert(
                    op.u("w"),
                    WSlot {
                        w: Some(w),
                        b: None,
                        store: Some(store),
                        kind,
                        path,
                        content: empty_content(kind),
                        total: 0,
                        seed: op.u("seed"),
                        tw: op.u("tw"),
                        tainted: false,
                        pushed: 0,
                        mem,
                        sid,
                    },
                );
                Ok("ok".into())
            }
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("starting a writer fails without cause", format!("{}: {:?}", path, e));
                }
                Ok(iocat(&e))
            }
        }
    }

    fn op_cos(&mut self, op: &Op) -> Result<String, Violation> {
        let (store, place, _, _) = match self.store_of(op) {
            Some(x) => x,
            None => return Ok("skip".into()),
        };
        let path = join(&place, op.s("name"));
        if op.s("name").ends_with("_index") {
            return Ok("skip index name".into());
        }
        if self.busy(&path) || self.model.parts.contains_key(&path) || self.w.streams.contains_key(&op.u("h")) {
            return Ok("skip busy".into());
        }
        let r = match guard(|| store.create_output_stream(op.s("name")).map(wrap)) {
            Ok(r) => r,
            Err(m) => return viol("creating a stream panics", m),
        };
        self.strict("creating a stream", r.is_err(), 0)?;
        match r {
            Ok(s) => {
                self.raws.insert(path.clone(), Some(vec![]));
                self.w.streams.insert(op.u("h"), RawStream { s, path });
                Ok("ok".into())
            }
            Err(e) => {
                if !Self::any_fault_fired() {
                    return viol("creating a stream fails without cause", format!("{}: {:?}", path, e));
                }
                self.raws.insert(path, None);
                Ok(iocat(&e))
            }
        }
    }

    fn op_cosw(&mut self, op: &Op) -> Result<String, Violation> {
        let (s, path) = match self.w.streams.get(&op.u("h")) {
            Some(s) => (s.s.clone(), s.path.clone()),
            None => return Ok("skip".into()),
        };
        let data = match near_content(&RAW_KIND, op.u("seed"), op.u("n"), op.u("tw")) {
            Content::Raw(d) => d,
            _ => unreachable!(),
        };
        let r = match guard(|| s.borrow_mut().put(&data)) {
            Ok(r) => r,
            Err(m) => return viol("writing to a stream panics", m),
        };
        self.strict("writing to a stream", r.is_err(), 0)?;
        match &r {
            Ok(()) => {
                if let Some(Some(b)) = self.raws.get_mut(&path) {
                    b.extend_from_slice(&data);
                }
            }
            Err(_) => {
                self.raws.insert(path, None);
            }
        }
        Ok(iores(&r))
    }
}

pub fn image_path(image: &str) -> String {
    format!("{}/{}", vfs::ROOT, image)
}

fn mut_file(m: &MutKind) -> Option<u64> {
    match m {
        MutKind::Create { ino, .. } | MutKind::SetLen { ino, .. } | MutKind::Write { ino, .. } => Some(*ino),
        _ => None,
    }
}

/// schema texts in plans have no spaces
pub fn unquote(s: &str) -> String {
    s.replace("~", " ").replace("%n", "\n").replace("%s", "\u{a0}").replace("%e", "\u{e9}").replace("%0", "")
}

/// Runs a plan once (or, with readers in other processes, twice: without and with them).
pub fn run(plan: &Plan, opt: Options) -> (Result<(), Violation>, Outcome) {
    if opt.force_mem || !plan.ops.iter().any(is_peer) {
        let (r, o, _) = Exec::new(plan, opt).run();
        return (r, o);
    }
    let (r, alone, _, around) = Exec::new(plan, Options { around: true, ..opt.clone() }).run_all();
    if r.is_err() {
        return (r, alone);
    }
    with_peers(plan, opt, alone, around)
}

/// operations of another process: one that only reads (1), or one with an archive of its own (2)
fn is_peer(op: &Op) -> bool {
    op.u("peer") > 0
}

/// Can other processes read in the middle of the operation from `a` to `b`, and the parts that it
/// concerns be judged? Not if it replaces something.
fn fresh(a: &Model, b: &Model) -> bool {
    b.parts.iter().all(|(k, n)| match a.parts.get(k) {
        None => true,
        Some(o) => o.same(n) || o.settled.is_none() && o.maybe.is_empty(),
    })
}

/// The same operations once more, with other processes at and between the system calls.
/// `peer=1` or `peer=2` alone: between two operations; `mid=k`: right before system call k of the
/// operation that follows; `over=k`: the operation that follows happens right before system call k of
/// this one.
fn with_peers(plan: &Plan, opt: Options, mut out: Outcome, around: Around) -> (Result<(), Violation>, Outcome) {
    let mut once = plan.clone();
    once.ops.retain(|o| !["crash", "dmg", "tree", "mark"].contains(&&o.name[..]));
    let mut main = Exec::new(&once, opt.clone());
    let mut reader = Exec::another(&once, opt.clone());
    let mut writer = Exec::another(&once, opt);
    // operations run inside others, through these
    let found: Rc<RefCell<Option<Violation>>> = Rc::new(RefCell::new(None));
    let step = |who: *mut Exec, op: &Op, what: &'static str, model: Option<Model>| {
        let (op, found) = (op.clone(), found.clone());
        let who = who as usize;
        Box::new(move || {
            let e = unsafe { &mut *(who as *mut Exec<'static>) };
            if !what.is_empty() {
                e.count(what);
            }
            if let Some(m) = &model {
                e.model = m.clone();
            }
            if let Err(v) = e.one(&op) {
                found.borrow_mut().get_or_insert(v);
            }
        }) as Box<dyn FnMut()>
    };
    let main_ptr = &mut main as *mut Exec;
    let reader_ptr = &mut reader as *mut Exec;
    let writer_ptr = &mut writer as *mut Exec;
    let ops = &once.ops;
    let mut i = 0;
    while i < ops.len() && found.borrow().is_none() {
        let from = i;
        while i < ops.len() && is_peer(&ops[i]) {
            i += 1;
        }
        let others = &ops[from..i];
        let next = ops.get(i);
        i += 1;
        let states = next.and_then(|x| around.get(&x.id));
        let writes = next.map_or(false, |x| ["new", "sub", "set", "start", "push", "close"].contains(&&x.name[..]));
        // does it create what was not there?
        let creates = states.map_or(false, |(a, b)| a.sigs.len() < b.sigs.len());
        let can_read = states.filter(|(a, b)| writes && fresh(a, b));
        let can_write = next.map_or(false, |x| {
            ["set", "start", "push", "close", "open", "res"].contains(&&x.name[..]) || writes && creates
        });
        let mut within = vec![];
        let mut over = None;
        for r in others {
            match (r.u("peer"), can_read) {
                (1, Some((a, b))) if r.has("mid") && over.is_none() => within.push(vfs::Nested {
                    at: r.u("mid") as u32,
                    what: step(reader_ptr, r, "peer:read_within", Some(a.merge(b))),
                }),
                (1, Some((a, b))) if r.has("over") && over.is_none() && within.is_empty() => {
                    over = Some((r, a.merge(b)))
                }
                (1, _) => step(reader_ptr, r, "peer:read_between", Some(unsafe { (*main_ptr).model.clone() }))(),
                (_, _) if can_write && r.has("mid") && over.is_none() => within.push(vfs::Nested {
                    at: r.u("mid") as u32,
                    what: step(writer_ptr, r, "peer:write_within", None),
                }),
                _ => step(writer_ptr, r, "peer:write_between", None)(),
            }
        }
        let next = match next {
            Some(x) => x,
            None => break,
        };
        match over {
            Some((r, m)) => {
                vfs::set_nested(vec![vfs::Nested { at: r.u("over") as u32, what: step(main_ptr, next, "", None) }]);
                unsafe { (*reader_ptr).opt.overlapped = true };
                step(reader_ptr, r, "peer:read_around", Some(m))();
                unsafe { (*reader_ptr).opt.overlapped = false };
            }
            None => {
                vfs::set_nested(within);
                unsafe { (*main_ptr).opt.overlapped = true };
                step(main_ptr, next, "", None)();
                unsafe { (*main_ptr).opt.overlapped = false };
            }
        }
        // what had no system call to come before
        for mut n in vfs::take_nested() {
            (n.what)();
        }
    }
    let found = found.borrow_mut().take();
    for e in vec![reader, writer] {
        let mut e = e;
        let (_, o, _) = e.done(Ok(()));
        for (k, n) in &o.counters {
            if k.starts_with("peer:") || k.starts_with("probe:") {
                *out.counters.entry(k.replace("probe:", "probe:peer_")).or_insert(0) += n;
            }
        }
        out.hash = mix2(out.hash, o.hash);
    }
    let (r, m, _) = main.done(found.map_or(Ok(()), Err));
    out.hash = mix2(out.hash, m.hash);
    out.steps += m.steps;
    if r.is_err() {
        return (r, out);
    }
    // nobody makes a difference to anybody else (but a directory that is already there moves the faults)
    let moved = ops.iter().any(|o| o.u("peer") == 2) && ops.iter().any(|o| !o.faults.is_empty());
    let was: BTreeMap<u32, &String> = out.outcomes.iter().map(|(i, s)| (*i, s)).collect();
    for (id, s) in &m.outcomes {
        if !moved && was.get(id).map_or(false, |w| *w != s) {
            let v = Violation {
                class: "other processes make a difference".into(),
                detail: format!("alone {}, with others {}", was[id], s),
                op: *id,
                crash: None,
            };
            return (Err(v), out);
        }
    }
    *out.counters.entry("probe:runs_with_other_processes".into()).or_insert(0) += 1;
    (Ok(()), out)
}

static mut STAGES: Option<fn(&Plan)> = None;

pub fn show_stages(f: fn(&Plan)) {
    unsafe {
        STAGES = Some(f);
    }
}

fn stage(plan: &Plan) {
    unsafe {
        if let Some(f) = STAGES {
            f(plan)
        }
    }
}

/// The injectable system calls of every operation, without faults.
pub fn probe(plan: &Plan) -> BTreeMap<u32, Vec<(u32, Kind, String, u64)>> {
    stage(plan);
    let (_, _, ev) = Exec::new(plan, Options { events: true, no_faults: false, ..Options::default() }).run();
    ev.into_iter()
        .map(|(id, v)| {
            (id, v.into_iter().filter_map(|e| e.injectable.map(|i| (i, e.kind, e.path.clone(), e.len))).collect())
        })
        .collect()
}

/// The files (with lengths) that a plan leaves on a disk.
pub fn tree_after(plan: &Plan, disk: &str) -> Vec<(String, u64)> {
    stage(plan);
    let (_, o) = run(plan, Options { tree: Some(disk.into()), ..Options::default() });
    o.tree
}

trait Retain2<K> {
    fn retain2<F: Fn(&K) -> bool>(&mut self, f: F);
}
impl<K: Ord + Clone, V> Retain2<K> for BTreeMap<K, V> {
    fn retain2<F: Fn(&K) -> bool>(&mut self, f: F) {
        let dead: Vec<K> = self.keys().filter(|k| !f(k)).cloned().collect();
        for k in dead {
            self.remove(&k);
        }
    }
}

fn native(path: &str) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(crate::hooks::encode(path)).into()
}

/// Different ways to write down one path.
fn spelled(base: &str, place: &str, how: u64) -> std::path::PathBuf {
    let first = place.split('/').next().unwrap();
    native(&match how {
        1 => format!("{}/{}/", base, place),
        2 => format!("{}//{}", base, place.replace('/', "//")),
        3 => format!("{}/./{}/.", base, place.replace('/', "/./")),
        4 => format!("{}/{}/../{}", base, first, place),
        5 => format!("../{}/", place),
        _ => format!("{}/{}", base, place),
    })
}
