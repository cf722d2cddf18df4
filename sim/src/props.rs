//! Per property: the plan of run number `i` under seed `seed`.

use crate::check::RETEXTS;
use crate::exec::probe;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::schemas::*;
use crate::vfs::{Act, Kind};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const CLAIMED: &[&str] =
    &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C18"];

pub struct G {
    pub r: Rng,
    n: u64,
}

enum Step {
    Op(Op),
    Fork(Vec<Task>),
}
type Task = VecDeque<Step>;

#[derive(Clone)]
struct Cfg {
    /// elements of streamed and set sequences
    max_n: u64,
    raw_max: u64,
    /// percentages
    optional: u64,
    skip_required: u64,
    redo: u64,
    abandon: u64,
    hold: u64,
    stream: u64,
    max_attempts: u64,
    /// the part that gets gigabytes
    giant: &'static str,
    /// how many bytes (or 0 for sizes at limits)
    giant_bytes: u64,
}

impl Cfg {
    fn plain() -> Cfg {
        Cfg {
            max_n: 24,
            raw_max: 300,
            optional: 60,
            skip_required: 0,
            redo: 0,
            abandon: 0,
            hold: 0,
            stream: 60,
            max_attempts: 1,
            giant: "",
            giant_bytes: 0,
        }
    }
}

#[derive(Clone)]
struct Site {
    s: u64,
    b: u64,
    arc: &'static ArcDef,
    kind: &'static str,
    disk: String,
    root: String,
    /// varies how the path gets written
    spell: u64,
}

// U+F7xx stands for the byte xx: white space, and bytes that are not UTF-8
const ROOTS: &[&str] = &[
    "",
    "r",
    "a/b",
    "x.y/z",
    "deep/er/dir",
    "\u{fc}n\u{ef}",
    "n\u{f7ff}o/t\u{f7c3}",
    "my\u{f720}data\u{f70a}/\u{f780}",
    "%20'\"\\/$HOME",
    ".hidden/-",
];

impl G {
    fn id(&mut self) -> u64 {
        self.n += 1;
        self.n
    }
    fn pct(&mut self, p: u64) -> bool {
        self.r.chance(p, 100)
    }
    fn seed(&mut self) -> u64 {
        self.r.next() >> 20
    }

    /// one part with tens of thousands of elements
    fn many(&mut self, cfg: &mut Cfg) -> &'static [(&'static str, u64)] {
        cfg.optional = 70;
        cfg.giant = ["ks", "ts", "km", "r"][self.r.below(4) as usize];
        &[("Many", 1)]
    }

    fn count_for(&mut self, k: &PartKind, cfg: &Cfg) -> u64 {
        let big = |d: &RecDef| d.size > 1 << 20;
        match k {
            PartKind::Vec(d) if big(d) => {
                if self.pct(70) {
                    self.r.range(0, 3)
                } else {
                    self.r.range(6, 12)
                }
            }
            PartKind::Multi { variants, index, .. } if variants.iter().any(|v| big(v.1)) || big(index) => {
                if self.pct(50) {
                    self.r.range(0, 3)
                } else {
                    self.r.range(4, 9)
                }
            }
            PartKind::Multi { index, .. } if index.fields[0].bits < 20 => {
                if index.fields[0].bits < 10 {
                    self.r.range(0, 40)
                } else if self.pct(8) {
                    self.r.range(2000, 9000)
                } else {
                    self.r.small(60)
                }
            }
            PartKind::Raw => {
                if self.pct(5) && cfg.raw_max > 100 {
                    match self.r.below(5) {
                        0 | 1 => self.r.range(4000, 70_000),
                        _ => self.edge(140_000),
                    }
                } else {
                    self.r.small(cfg.raw_max)
                }
            }
            PartKind::Vec(d) if d.size > 0 && cfg.max_n >= 12 && self.pct(3) => {
                let size = d.size as u64;
                let max = if self.pct(30) { 70_000 } else { 10_000 };
                let n = self.edge(max) / size + self.r.below(2);
                n.min(9000)
            }
            _ => self.r.small(cfg.max_n),
        }
    }

    /// Sizes with which the payload, or the file, just fills some pages or buffers, or just does not.
    fn edge(&mut self, max: u64) -> u64 {
        let at = if self.pct(50) { 4096 * self.r.range(1, 9) } else { 1 << self.r.range(8, 17) };
        let around = *self.r.pick(&[0u64, 8, 16, 24, 40]) + self.r.below(5);
        (at + 2 - around.min(at)).min(max)
    }

    /// operations of one attempt to write a part
    fn attempt(&mut self, p: &PartDef, b: u64, cfg: &Cfg) -> Vec<Op> {
        let mut n = self.count_for(&p.kind, cfg);
        let streaming = p.is_streamable() && (!p.is_settable() || self.pct(cfg.stream));
        let seed = self.seed();
        if p.name == cfg.giant {
            // sizes next to 2^31 and 2^32, or numbers around 2^16
            let total = match cfg.giant_bytes {
                0 if self.pct(25) => 1u64 << 31,
                0 => 1 << 32,
                n => n,
            };
            n = match p.kind {
                PartKind::Vec(d) if d.size < 1 << 20 => {
                    if self.pct(60) {
                        65_534 + self.r.range(0, 4)
                    } else {
                        self.r.range(33_000, 140_000)
                    }
                }
                PartKind::Multi { index, .. } if index.size == 4 => {
                    if self.pct(50) {
                        65_534 + self.r.range(0, 4)
                    } else {
                        self.r.range(33_000, 80_000)
                    }
                }
                PartKind::Raw => (32 << 20) - 20 + self.r.range(0, 40),
                PartKind::Vec(d) => total / d.size as u64 + self.r.range(0, 2),
                _ => (total >> 20) * 10 / 27 + self.r.range(0, 40),
            };
            if !streaming {
                let how = if n > 20_000 { self.r.below(24) } else { 0 };
                return vec![Op::new("set").with("b", b).with("part", p.name).with("seed", seed).with("n", n).with("how", how)];
            }
        }
        if !streaming {
            let how = self.r.below(24);
            return vec![Op::new("set").with("b", b).with("part", p.name).with("seed", seed).with("n", n).with("how", how)];
        }
        let w = self.id();
        let mut ops = vec![Op::new("start").with("b", b).with("w", w).with("part", p.name).with("seed", seed)];
        let abandon = self.pct(cfg.abandon);
        let mut left = if abandon { self.r.range(0, n) } else { n };
        while left > 0 {
            let k = match self.r.below(3) {
                0 => 1,
                1 => left,
                _ => self.r.range(1, left),
            };
            ops.push(Op::new("push").with("w", w).with("n", k));
            left -= k;
        }
        if abandon {
            let mode = if self.pct(50) { "unwind" } else { "plain" };
            ops.push(Op::new("dropw").with("w", w).with("mode", mode));
        } else {
            let mut c = Op::new("close").with("w", w);
            if self.pct(cfg.hold) {
                c = c.with("hold", self.id());
            }
            ops.push(c);
        }
        ops
    }

    fn part_task(&mut self, p: &'static PartDef, b: u64, cfg: &Cfg) -> Task {
        let mut t = Task::new();
        if let PartKind::Sub(sub) = p.kind {
            let nb = self.id();
            t.push_back(Step::Op(Op::new("sub").with("from", b).with("b", nb).with("part", p.name)));
            if self.pct(cfg.redo / 3) {
                t.push_back(Step::Op(Op::new("sub").with("from", b).with("b", nb).with("part", p.name)));
            }
            let f = self.tasks(sub, nb, cfg);
            t.push_back(Step::Fork(f));
            return t;
        }
        let mut attempts = 1;
        while attempts < cfg.max_attempts && self.pct(cfg.redo) {
            attempts += 1;
        }
        let mut last: Option<(u64, u64)> = None;
        for _ in 0..attempts {
            let mut ops = self.attempt(p, b, cfg);
            // what is written next is often nearly what was there
            match last {
                Some((seed, n)) if self.pct(40) => {
                    let tw = self.r.range(1, 2 * n + 2);
                    ops = self.like(ops, seed, n, tw);
                }
                _ => {}
            }
            let seed = ops[0].u("seed");
            let n = ops.iter().map(|o| o.u("n")).sum();
            last = Some((seed, n));
            for op in ops {
                t.push_back(Step::Op(op));
            }
        }
        t
    }

    /// the same attempt, with the content of another one but for a detail
    fn like(&mut self, ops: Vec<Op>, seed: u64, n: u64, tw: u64) -> Vec<Op> {
        let mut v = vec![];
        let mut left = n;
        for o in ops {
            match &o.name[..] {
                "set" => v.push(o.with("seed", seed).with("n", n).with("tw", tw)),
                "start" => v.push(o.with("seed", seed).with("tw", tw)),
                "push" => {
                    let k = self.r.range(0, left);
                    if k > 0 {
                        v.push(o.with("n", k));
                    }
                    left -= k;
                }
                _ => {
                    if left > 0 && o.name == "close" {
                        v.push(Op::new("push").with("w", o.u("w")).with("n", left));
                    }
                    v.push(o);
                }
            }
        }
        v
    }

    fn tasks(&mut self, arc: &'static ArcDef, b: u64, cfg: &Cfg) -> Vec<Task> {
        let mut v = vec![];
        // schemas with very many parts: a sample
        let few = arc.parts.len() > 14;
        for p in arc.parts {
            let give = if p.optional {
                if few {
                    self.pct(cfg.optional / 3)
                } else {
                    self.pct(cfg.optional)
                }
            } else {
                !self.pct(cfg.skip_required)
            };
            if give {
                v.push(self.part_task(p, b, cfg));
            }
        }
        v
    }

    fn site(&mut self, arc: &'static ArcDef, kind: &'static str, disk: &str, root: &str) -> (Site, Task) {
        let spell = self.seed();
        let s = Site { s: self.id(), b: self.id(), arc, kind, disk: disk.into(), root: root.into(), spell };
        let mut t = Task::new();
        t.push_back(Step::Op(s.stor(s.s)));
        t.push_back(Step::Op(Op::new("new").with("s", s.s).with("b", s.b).with("arc", arc.name)));
        (s, t)
    }

    /// a whole archive: storage, signature, and all parts as concurrent tasks
    fn archive(&mut self, arc: &'static ArcDef, kind: &'static str, disk: &str, root: &str, cfg: &Cfg) -> (Site, Task) {
        let (s, mut t) = self.site(arc, kind, disk, root);
        let f = self.tasks(arc, s.b, cfg);
        t.push_back(Step::Fork(f));
        (s, t)
    }

    fn root(&mut self) -> &'static str {
        ROOTS[self.r.idx(ROOTS.len())]
    }

    fn pick_arc(&mut self, weights: &[(&str, u64)]) -> &'static ArcDef {
        let total: u64 = weights.iter().map(|w| w.1).sum();
        let mut x = self.r.below(total);
        for (n, w) in weights {
            if x < *w {
                return by_name(n).unwrap();
            }
            x -= w;
        }
        unreachable!()
    }

    /// The scheduler: which task takes the next step.
    fn schedule(&mut self, tasks: Vec<Task>) -> Vec<Op> {
        let policy = self.r.below(6);
        let mut active: Vec<(u64, Task)> = tasks.into_iter().map(|t| (self.r.next(), t)).collect();
        let mut out = vec![];
        let mut cur = 0usize;
        while !active.is_empty() {
            let i = match policy {
                0 => 0,
                1 | 2 => self.r.idx(active.len()),
                3 => {
                    cur = (cur + 1) % active.len();
                    cur
                }
                4 => {
                    if cur >= active.len() || self.pct(25) {
                        cur = self.r.idx(active.len());
                    }
                    cur
                }
                _ => {
                    // priorities with occasional change points
                    if self.pct(6) {
                        let k = self.r.idx(active.len());
                        active[k].0 = self.r.next() >> 1;
                    }
                    (0..active.len()).max_by_key(|k| active[*k].0).unwrap()
                }
            };
            match active[i].1.pop_front() {
                None => {
                    active.remove(i);
                }
                Some(Step::Op(op)) => out.push(op),
                Some(Step::Fork(f)) => {
                    if policy == 0 {
                        for (k, t) in f.into_iter().enumerate() {
                            active.insert(i + k, (0, t));
                        }
                    } else {
                        for t in f {
                            let p = self.r.next();
                            active.push((p, t));
                        }
                    }
                }
            }
        }
        out
    }

    /// inserts `extra` (kept in order) at random places of `ops`, not before `from`
    fn sprinkle(&mut self, ops: Vec<Op>, extra: Vec<Op>, from: usize) -> Vec<Op> {
        let lo = from.min(ops.len());
        let mut at: Vec<usize> = (0..extra.len()).map(|_| self.r.range(lo as u64, ops.len() as u64) as usize).collect();
        at.sort();
        let mut out = vec![];
        let mut e = extra.into_iter().zip(at).peekable();
        for (i, op) in ops.into_iter().enumerate() {
            while e.peek().map_or(false, |x| x.1 <= i) {
                out.push(e.next().unwrap().0);
            }
            out.push(op);
        }
        out.extend(e.map(|x| x.0));
        out
    }

    fn reader_store(&mut self, s: &Site) -> (Option<Op>, u64) {
        if s.kind == "mem" || self.pct(40) {
            (None, s.s)
        } else {
            let n = self.id();
            (Some(s.stor(n)), n)
        }
    }

    /// final opens: through the storage that wrote, and through a fresh one
    fn final_opens(&mut self, sites: &[Site], ops: &mut Vec<Op>) {
        for s in sites {
            let fresh_first = self.pct(50);
            let n = self.id();
            let a = Op::new("open").with("s", s.s).with("arc", s.arc.name);
            let b = vec![s.stor(n), Op::new("open").with("s", n).with("arc", s.arc.name)];
            if s.kind == "mem" {
                ops.push(a);
            } else if fresh_first {
                ops.extend(b);
                ops.push(a);
            } else {
                ops.push(a);
                ops.extend(b);
            }
        }
    }

    /// one to three archives, possibly on the same disk and in the same directory
    fn world(&mut self, weights: &[(&str, u64)], kinds: &[&'static str], max: u64, cfg: &Cfg) -> (Vec<Site>, Vec<Op>, usize) {
        let n = if self.pct(65) { 1 } else { self.r.range(1, max) };
        let mut sites: Vec<Site> = vec![];
        let mut tasks = vec![];
        for _ in 0..n {
            let arc = self.pick_arc(weights);
            let kind = *self.r.pick(kinds);
            let disk = if self.pct(50) { "d0" } else { "d1" };
            let root = self.root();
            if clash(&sites, arc, kind, disk, root) {
                continue;
            }
            let (s, t) = self.archive(arc, kind, disk, root, cfg);
            sites.push(s);
            tasks.push(t);
        }
        let ops = self.schedule(tasks);
        let first = ops.iter().position(|o| o.name == "new").map_or(0, |i| i + 1);
        (sites, ops, first)
    }

    fn some_faults(&mut self, plan: &mut Plan, n: u64, which: &dyn Fn(&Op, Kind, &str) -> bool, kinds: FaultSet) {
        let ev = probe(plan);
        self.place(plan, &ev, n, which, kinds);
    }

    fn place(
        &mut self,
        plan: &mut Plan,
        ev: &BTreeMap<u32, Vec<(u32, Kind, String, u64)>>,
        n: u64,
        which: &dyn Fn(&Op, Kind, &str) -> bool,
        kinds: FaultSet,
    ) {
        let mut cand: Vec<(usize, u32, Kind, u64)> = vec![];
        for (i, op) in plan.ops.iter().enumerate() {
            if let Some(v) = ev.get(&op.id) {
                for (at, k, path, len) in v {
                    if which(op, *k, path) {
                        cand.push((i, *at, *k, *len));
                    }
                }
            }
        }
        if cand.is_empty() {
            return;
        }
        // operations first, so that long ones do not take all faults
        let mut by_op: BTreeMap<usize, Vec<(u32, Kind, u64)>> = BTreeMap::new();
        for (i, at, k, l) in cand {
            by_op.entry(i).or_insert_with(Vec::new).push((at, k, l));
        }
        let keys: Vec<usize> = by_op.keys().cloned().collect();
        for _ in 0..n {
            let i = *self.r.pick(&keys);
            let (at, k, len) = *self.r.pick(&by_op[&i]);
            if let Some(a) = self.act(k, len, kinds) {
                let f = &mut plan.ops[i].faults;
                if !f.iter().any(|(x, _)| *x == at) {
                    f.push((at, a));
                }
                // something is stored, and the rest fails
                if k == Kind::Write && len > 1 && kinds != FaultSet::Soft && self.pct(25) && !f.iter().any(|(x, _)| *x == at + 1) {
                    f.retain(|(x, _)| *x != at);
                    f.push((at, Act::Short(self.r.range(1, len - 1))));
                    if let Some(a) = self.act(k, len, FaultSet::Hard) {
                        plan.ops[i].faults.push((at + 1, a));
                    }
                }
            }
        }
        for op in plan.ops.iter_mut() {
            op.faults.sort_by_key(|f| f.0);
        }
    }

    fn act(&mut self, k: Kind, len: u64, set: FaultSet) -> Option<Act> {
        let soft = |g: &mut G| -> Option<Act> {
            match k {
                Kind::Write | Kind::Read => {
                    if g.pct(35) {
                        Some(Act::Err(libc::EINTR))
                    } else {
                        let n = match g.r.below(4) {
                            0 => 1,
                            1 => len.saturating_sub(1).max(1),
                            2 => g.r.range(1, len.max(1)),
                            _ => g.r.range(1, 8),
                        };
                        if g.pct(20) && len < 4096 {
                            Some(Act::ShortAll(n))
                        } else {
                            Some(Act::Short(n))
                        }
                    }
                }
                Kind::OpenCreate | Kind::OpenRead => Some(Act::Err(libc::EINTR)),
                _ => None,
            }
        };
        match set {
            FaultSet::Soft => soft(self),
            FaultSet::Hard => {
                let list: &[i32] = match k {
                    Kind::OpenCreate => &[
                        libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::ENFILE, libc::EROFS, libc::EDQUOT, libc::EPERM,
                        libc::ENOMEM, libc::ETXTBSY, libc::EAGAIN, libc::ETIMEDOUT, libc::ENAMETOOLONG,
                    ],
                    Kind::Write => &[
                        libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EIO, libc::ENOSPC, libc::EAGAIN, libc::ETIMEDOUT,
                        libc::EPIPE, libc::ENOMEM, libc::EACCES, libc::ESTALE, libc::EINVAL, crate::vfs::TAKES_NOTHING,
                    ],
                    Kind::Seek => &[libc::EIO, libc::EINVAL, libc::ESPIPE, libc::ESTALE],
                    Kind::Mkdir => &[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EDQUOT, libc::EPERM, libc::EMLINK],
                    Kind::OpenRead => &[
                        libc::EIO, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EPERM, libc::EAGAIN, libc::ETIMEDOUT,
                        libc::ENXIO,
                    ],
                    Kind::Stat => &[libc::EIO, libc::EACCES, libc::ELOOP, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT, libc::EPERM],
                    Kind::Fstat => &[libc::EIO, libc::ESTALE, libc::ENOMEM],
                    Kind::Mmap => &[libc::ENOMEM, libc::EACCES, libc::EAGAIN, libc::ENODEV, libc::EPERM],
                    Kind::Read => &[libc::EIO],
                    Kind::Close | Kind::Munmap => return None,
                    _ => &[libc::EIO],
                };
                let e = *self.r.pick(list);
                Some(if self.pct(25) { Act::ErrAll(e) } else { Act::Err(e) })
            }
            FaultSet::Mixed => {
                if self.pct(25) {
                    soft(self)
                } else {
                    self.act(k, len, FaultSet::Hard)
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum FaultSet {
    Soft,
    Hard,
    Mixed,
}

impl Site {
    fn stor(&self, slot: u64) -> Op {
        let op = Op::new("stor").with("s", slot).with("kind", self.kind).with("disk", &self.disk).with("root", &self.root);
        match mix2(self.spell, slot) % 24 {
            x @ 1..=7 => op.with("spell", x),
            _ => op,
        }
    }
    fn open(&self) -> Op {
        Op::new("open").with("s", self.s).with("arc", self.arc.name)
    }
}

fn names(arc: &'static ArcDef) -> BTreeSet<String> {
    arc.parts.iter().flat_map(|p| part_file_names(p)).collect()
}

/// two archives may share a directory only if their parts have different names
fn clash(sites: &[Site], arc: &'static ArcDef, kind: &str, disk: &str, root: &str) -> bool {
    sites.iter().any(|s| {
        s.kind == kind
            && s.disk == disk
            && kind == "file"
            && if s.root == root {
                s.arc.name == arc.name || !names(s.arc).is_disjoint(&names(arc))
            } else {
                // a directory of one archive must not be a file or subarchive of the other
                nested(&s.root, root, s.arc) || nested(root, &s.root, arc)
            }
    })
}

fn nested(outer: &str, inner: &str, arc: &'static ArcDef) -> bool {
    if !outer.is_empty() && !inner.starts_with(&format!("{}/", outer)) {
        return false;
    }
    let rest = if outer.is_empty() { inner } else { &inner[outer.len() + 1..] };
    let first = rest.split('/').next().unwrap_or("");
    names(arc).contains(first) || first == "" || first.ends_with(".archive")
}

fn finish(prop: &str, ops: Vec<Op>) -> Plan {
    let mut p = Plan::new(prop);
    p.ops = ops;
    p.number();
    p
}

const READ_MIX: &[(&str, u64)] =
    &[("Lay", 4), ("Every", 2), ("Flat", 5), ("Nest", 3), ("AllOpt", 3), ("Narrow", 3), ("Mini", 2), ("Leaf", 2), ("Mid", 2)];
const SMALL_MIX: &[(&str, u64)] = &[("Flat", 5), ("AllOpt", 4), ("Nest", 3), ("Mini", 2), ("Leaf", 3), ("Mid", 3)];

/// how the size of the run's data is chosen
fn heavy_every(prop: &str) -> u64 {
    match prop {
        "C01" => 23,
        "C02" => 41,
        "C03" => 21,
        "C04" => 39,
        "C07" => 59,
        "C09" => 39,
        "C10" => 51,
        "C12" => 39,
        "C13" => 59,
        "C18" => 400,
        _ => 0,
    }
}

pub fn generate(prop: &str, seed: u64, i: u64) -> Plan {
    let ps: u64 = prop.bytes().fold(7, |h, b| mix2(h, u64::from(b)));
    let mut g = G { r: Rng::new(mix2(mix2(seed, ps), i)), n: 0 };
    let he = heavy_every(prop);
    let heavy = he > 0 && i % he == he - 1;
    let mut p = match prop {
        "C01" => c01(&mut g, heavy),
        "C02" => c02(&mut g, heavy),
        "C03" => c03(&mut g, heavy),
        "C04" => c04(&mut g, heavy),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g, heavy),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g, heavy),
        "C10" => c10(&mut g, heavy),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g, heavy),
        "C13" => c13(&mut g, heavy),
        "C18" => c18(&mut g, heavy),
        _ => panic!("unknown property {}", prop),
    };
    p.prop = prop.into();
    if i % 2 == 1 {
        p.kv.insert("clock".into(), (mix2(mix2(seed, ps), i) | 1).to_string());
    }
    if prop != "C12" && !heavy && g.pct(10) {
        litter(&mut g, &mut p);
    }
    if prop != "C12" && !heavy && g.pct(10) {
        links(&mut g, &mut p);
    }
    let with_readers = match prop {
        "C02" | "C07" => 45,
        "C01" | "C11" => 20,
        _ => 0,
    };
    if with_readers > 0 && !heavy && g.pct(with_readers) {
        readers_elsewhere(&mut g, &mut p);
    }
    let with_writers = match prop {
        "C06" => 30,
        "C01" => 15,
        _ => 0,
    };
    let readers = p.ops.iter().any(|o| o.has("peer"));
    if with_writers > 0 && !readers && !heavy && g.pct(with_writers) {
        writer_elsewhere(&mut g, &mut p);
    }
    match prop {
        "C01" | "C02" | "C07" | "C08" | "C09" | "C11" | "C12" if g.pct(50) => {
            // some readers find the disk mounted for reading only
            for o in &mut p.ops {
                let reads = ["open", "res", "rres", "rhold", "ex"].contains(&&o.name[..]);
                if reads && g.pct(12) {
                    *o = o.clone().with("ro", 1);
                }
            }
        }
        _ => {}
    }
    p
}

/// Files with similar names that somebody else left in an archive's directory.
fn litter(g: &mut G, p: &mut Plan) {
    let odd = ["rmtree", "mvtree", "cptree", "reboot", "cap"];
    if p.ops.iter().any(|o| odd.contains(&&o.name[..])) {
        return;
    }
    let mut ops = vec![];
    for o in p.ops.iter().filter(|o| o.name == "new") {
        let stor = p.ops.iter().find(|x| x.name == "stor" && x.s("s") == o.s("s"));
        let (x, arc) = match (stor, by_name(o.s("arc"))) {
            (Some(x), Some(arc)) if x.s("kind") == "file" => (x, arc),
            _ => continue,
        };
        for _ in 0..g.r.range(1, 6) {
            let part = g.r.pick(arc.parts).name;
            let (a, n) = (arc.name, part);
            let name = match g.r.below(26) {
                0 => format!("x{}.archive", a),
                1 => format!("{}.archive.bak", a),
                2 => format!("{}.archive~", a),
                3 => format!("{}.archive", a.to_lowercase()),
                4 => a.to_string(),
                5 => format!("{}.archive.schema.orig", a),
                6 => format!("{}.schema", a),
                7 => format!("{}.Archive", a),
                8 => format!(".{}.archive", a),
                9 => format!("{}.archive.schema.schema", a),
                10 => "archive.schema".into(),
                11 => ".archive".into(),
                12 => format!("{}~", n),
                13 => format!(".{}.swp", n),
                14 => format!("{}.bak", n),
                15 => format!("{}.schema~", n),
                16 => n.to_uppercase(),
                17 => format!("{}.old", n),
                18 => format!("x{}", n),
                19 => format!("{}1", n),
                20 => format!("{}_", n),
                21 => format!("{}.schema.schema", n),
                22 => format!("{}_index_index", n),
                23 => format!("{}_data", n),
                24 => format!("{}.index", n),
                _ => format!("{}.SCHEMA", n),
            };
            let what = *g.r.pick(&["raw", "raw", "frame", "sig", "schema"]);
            let mut op = Op::new("litter").with("disk", x.s("disk")).with("name", name).with("what", what);
            op = op.with("root", x.s("root")).with("arc", a).with("seed", g.seed());
            ops.push(op);
        }
    }
    if ops.is_empty() {
        return;
    }
    let all = std::mem::replace(&mut p.ops, vec![]);
    p.ops = g.sprinkle(all, ops, 0);
    p.number();
}

/// People move big files to another disk and leave symbolic links.
fn links(g: &mut G, p: &mut Plan) {
    let disks: BTreeSet<String> = p.ops.iter().filter(|o| o.name == "stor" && o.s("kind") == "file").map(|o| o.s("disk").to_string()).collect();
    let mut ops = vec![];
    for d in &disks {
        for _ in 0..g.r.range(1, 4) {
            ops.push(Op::new("ln").with("disk", d).with("seed", g.seed()));
        }
    }
    let all = std::mem::replace(&mut p.ops, vec![]);
    p.ops = g.sprinkle(all, ops, 0);
    p.number();
}

/// Another process reads while this one writes, down to single system calls.
fn readers_elsewhere(g: &mut G, p: &mut Plan) {
    let odd = ["rmtree", "mvtree", "cptree", "rmpart", "hide", "unhide", "reboot", "fdlim"];
    if p.ops.iter().any(|o| odd.contains(&&o.name[..])) {
        return;
    }
    let mut stores: Vec<Op> = vec![];
    let mut known: Vec<(u64, u64)> = vec![];
    let mut arcs: Vec<(u64, String)> = vec![];
    let mut ops = vec![];
    let often = g.r.range(10, 50);
    for o in std::mem::replace(&mut p.ops, vec![]) {
        if is_w(&o) && !arcs.is_empty() && g.pct(often) {
            let over = g.pct(30);
            for _ in 0..if over { 1 } else { g.r.range(1, 3) } {
                let (s, arc) = arcs[g.r.below(arcs.len() as u64) as usize].clone();
                let how = if over { 9 } else { g.r.below(10) };
                let mut r = match g.r.below(8) {
                    0 => Op::new("res").with("s", s),
                    _ => Op::new("open").with("s", s).with("arc", arc),
                };
                r = r.with("peer", 1);
                // (few system calls are made by most operations, and some by reading)
                let few = g.r.range(2, 14);
                if over {
                    r = r.with("over", g.r.below(30));
                } else if how > 1 {
                    r = r.with("mid", g.r.below(few));
                }
                ops.push(r);
            }
        }
        let new = match &o.name[..] {
            "stor" if o.s("kind") == "file" => Some(o.clone()),
            _ => None,
        };
        let made = if o.name == "new" { Some((o.u("s"), o.s("arc").to_string())) } else { None };
        ops.push(o);
        if let Some(o) = new {
            // one storage object that stays, or several
            let same = stores.iter().any(|x| x.s("disk") == o.s("disk") && x.s("root") == o.s("root"));
            if !same || g.pct(30) {
                let n = g.id();
                let mut c = o.clone();
                c.id = 0;
                known.push((o.u("s"), n));
                ops.push(c.clone().with("s", n).with("peer", 1));
                stores.push(c);
            }
        }
        if let Some((s, arc)) = made {
            for (_, n) in known.iter().filter(|k| k.0 == s) {
                arcs.push((*n, arc.clone()));
            }
        }
    }
    for (s, arc) in &arcs {
        ops.push(Op::new("open").with("s", s).with("arc", arc).with("peer", 1));
    }
    p.ops = ops;
    p.number();
}

/// Another process makes an archive of its own, on the same disk, while this one works.
fn writer_elsewhere(g: &mut G, p: &mut Plan) {
    let odd = ["rmtree", "mvtree", "cptree", "rmpart", "hide", "unhide", "reboot", "fdlim", "cap"];
    if p.ops.iter().any(|o| odd.contains(&&o.name[..])) {
        return;
    }
    let mut sites: Vec<Site> = vec![];
    for o in p.ops.iter().filter(|o| o.name == "new") {
        let stor = p.ops.iter().find(|x| x.name == "stor" && x.s("s") == o.s("s") && !x.has("peer"));
        if let (Some(x), Some(arc)) = (stor, by_name(o.s("arc"))) {
            if x.s("kind") == "file" {
                let (disk, root) = (x.s("disk").into(), x.s("root").into());
                sites.push(Site { s: o.u("s"), b: 0, arc, kind: "file", disk, root, spell: 0 });
            }
        }
    }
    if sites.is_empty() {
        return;
    }
    let near = sites[g.r.idx(sites.len())].clone();
    // in the same directory, next to it, above or below it, or elsewhere
    let root = match g.r.below(5) {
        0 | 1 => near.root.clone(),
        2 => match near.root.rfind('/') {
            Some(i) => format!("{}/other", &near.root[..i]),
            None => "other".into(),
        },
        3 if !near.root.is_empty() => format!("{}/other", near.root),
        _ => g.root().into(),
    };
    let arc = g.pick_arc(&[("Flat", 3), ("AllOpt", 3), ("Nest", 3), ("Mini", 3), ("Leaf", 3), ("Mid", 3)]);
    if clash(&sites, arc, "file", &near.disk, &root) {
        return;
    }
    let cfg = Cfg { max_n: 8, raw_max: 60, ..Cfg::plain() };
    let (s, t) = g.archive(arc, "file", &near.disk, &root, &cfg);
    let mut ops = g.schedule(vec![t]);
    g.final_opens(&[s], &mut ops);
    let few = g.r.range(2, 14);
    let at_once = g.pct(30);
    for o in &mut ops {
        *o = o.clone().with("peer", 2);
        if g.pct(70) {
            let k = if at_once { 0 } else { g.r.below(few) };
            *o = o.clone().with("mid", k);
        }
    }
    let all = std::mem::replace(&mut p.ops, vec![]);
    let to = g.r.range(1, all.len() as u64) as usize;
    let (mut early, late) = (all, vec![]);
    let late = { let mut l = late; l.extend(early.split_off(to)); l };
    p.ops = g.sprinkle(early, ops, 0);
    p.ops.extend(late);
    p.number();
}

/// a file of a part is out of the way for a while
fn hide(g: &mut G, s: &Site, slot: u64, ops: &mut Vec<Op>) {
    let parts: Vec<&PartDef> = s.arc.parts.iter().filter(|p| !p.is_sub()).collect();
    if parts.is_empty() {
        return;
    }
    let h = g.id();
    let env = |n: &str| Op::new(n).with("disk", &s.disk).with("root", &s.root).with("h", h);
    let part = g.r.pick(&parts).name;
    ops.push(env("hide").with("arc", s.arc.name).with("part", part).with("which", g.r.below(4)));
    for _ in 0..g.r.range(1, 3) {
        ops.push(match g.r.below(5) {
            0 => Op::new("res").with("s", slot),
            1 => s.open(),
            _ => Op::new("open").with("s", slot).with("arc", s.arc.name),
        });
    }
    ops.push(env("unhide"));
    ops.push(Op::new("open").with("s", slot).with("arc", s.arc.name));
}

/// What people do with finished data sets: delete and rebuild, deploy a new one by renaming, keep
/// backups, copy, delete single parts. Readers with long-lived storages look on.
fn scene(g: &mut G, s: &Site, cfg: &Cfg, hold: bool) -> Vec<Op> {
    let mut ops = vec![];
    if s.kind != "file" {
        return ops;
    }
    let reader = g.id();
    ops.push(s.stor(reader));
    let look = |g: &mut G, ops: &mut Vec<Op>, slot: u64| {
        let mut o = Op::new("open").with("s", slot).with("arc", s.arc.name);
        if hold {
            let a = g.id();
            o = o.with("a", a);
            ops.push(o);
            for p in s.arc.parts.iter().filter(|p| !p.is_sub()) {
                if g.pct(50) {
                    ops.push(Op::new("hold").with("a", a).with("part", p.name).with("v", g.id()));
                }
            }
        } else {
            ops.push(o);
        }
    };
    let env = |n: &str| Op::new(n).with("disk", &s.disk).with("root", &s.root);
    let rounds = g.r.range(1, 3);
    for _ in 0..rounds {
        if g.pct(80) {
            look(g, &mut ops, reader);
        }
        if g.pct(50) {
            look(g, &mut ops, s.s);
        }
        let build = |g: &mut G, slot: u64| -> Vec<Op> {
            let b = g.id();
            let mut t = Task::new();
            t.push_back(Step::Op(Op::new("new").with("s", slot).with("b", b).with("arc", s.arc.name)));
            // short sequences often have the same length again
            let max_n = if g.pct(60) { 2 } else { cfg.max_n };
            let f = g.tasks(s.arc, b, &Cfg { max_n, raw_max: cfg.raw_max.min(4), redo: 0, abandon: 0, skip_required: 3, ..cfg.clone() });
            t.push_back(Step::Fork(f));
            g.schedule(vec![t])
        };
        match g.r.below(8) {
            7 => hide(g, s, reader, &mut ops),
            0 | 1 => {
                ops.push(env("rmtree"));
                if g.pct(40) {
                    look(g, &mut ops, reader);
                }
                let slot = match g.r.below(3) {
                    0 => reader,
                    1 => s.s,
                    _ => {
                        let n = g.id();
                        ops.push(s.stor(n));
                        n
                    }
                };
                let mut b = build(g, slot);
                if g.pct(40) {
                    let e = vec![Op::new("open").with("s", reader).with("arc", s.arc.name), Op::new("chkv")];
                    b = g.sprinkle(b, e, 0);
                }
                ops.extend(b);
            }
            2 | 3 if !s.root.is_empty() => {
                // a new version is built elsewhere and moved into place
                let stage = Site { s: g.id(), b: g.id(), root: format!("stage{}", g.id()), ..s.clone() };
                ops.push(stage.stor(stage.s));
                let b = build(g, stage.s);
                ops.extend(b);
                if g.pct(60) {
                    ops.push(stage.open());
                }
                let old = format!("old{}", g.id());
                if g.pct(60) {
                    ops.push(env("mvtree").with("to", &old));
                } else {
                    ops.push(env("rmtree"));
                }
                if g.pct(30) {
                    look(g, &mut ops, reader);
                }
                ops.push(Op::new("mvtree").with("disk", &s.disk).with("root", &stage.root).with("to", &s.root));
                if g.pct(40) {
                    // the earlier version is still complete where it went
                    let o = Site { root: old.clone(), s: g.id(), ..s.clone() };
                    ops.push(o.stor(o.s));
                    ops.push(o.open());
                }
            }
            4 => {
                let d = format!("{}k{}", s.disk, g.id());
                ops.push(env("cptree").with("todisk", &d).with("to", "copy/of"));
                let c = Site { disk: d, root: "copy/of".into(), s: g.id(), ..s.clone() };
                ops.push(c.stor(c.s));
                ops.push(c.open());
                if g.pct(50) {
                    ops.push(Op::new("new").with("s", c.s).with("b", g.id()).with("arc", s.arc.name));
                }
            }
            5 if !s.root.is_empty() => {
                // backup, rebuild, restore
                let bak = format!("bak{}", g.id());
                ops.push(env("cptree").with("to", &bak));
                ops.push(env("rmtree"));
                let b = build(g, s.s);
                ops.extend(b);
                look(g, &mut ops, reader);
                ops.push(env("rmtree"));
                ops.push(Op::new("mvtree").with("disk", &s.disk).with("root", &bak).with("to", &s.root));
            }
            _ => {
                let p = &s.arc.parts[g.r.idx(s.arc.parts.len())];
                ops.push(env("rmpart").with("arc", s.arc.name).with("part", p.name));
                look(g, &mut ops, reader);
                if g.pct(60) {
                    let t = g.part_task(p, s.b, &Cfg { max_n: 3, raw_max: 4, ..cfg.clone() });
                    let t = g.schedule(vec![t]);
                    ops.extend(t);
                }
            }
        }
        look(g, &mut ops, reader);
        if g.pct(50) {
            look(g, &mut ops, s.s);
        }
        if g.pct(40) {
            ops.push(Op::new("res").with("s", reader));
        }
        if hold {
            ops.push(Op::new("chkv"));
        }
    }
    ops
}

fn scenes(g: &mut G, sites: &[Site], cfg: &Cfg, hold: bool, pct: u64, ops: &mut Vec<Op>) {
    for s in sites {
        if g.pct(pct) {
            let e = scene(g, s, cfg, hold);
            ops.extend(e);
        }
    }
}

fn is_w(op: &Op) -> bool {
    match &op.name[..] {
        "new" | "sub" | "set" | "start" | "push" | "close" | "wres" | "vst" | "mst" | "cos" | "cosw" => true,
        _ => false,
    }
}

fn c01(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg { optional: 70, hold: 20, ..Cfg::plain() };
    if g.pct(10) {
        cfg.max_n = 300;
        cfg.raw_max = 5000;
    }
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { READ_MIX };
    if heavy {
        cfg.optional = 40;
        if g.pct(6) {
            cfg.optional = 100;
            cfg.giant = ["hs", "gs", "hm"][g.r.below(3) as usize];
        } else if g.pct(6) {
            mix = g.many(&mut cfg);
        }
    }
    let kinds: &[&'static str] = if cfg.giant.starts_with(|c| c == 'h' || c == 'g') { &["file"] } else { &["file", "file", "file", "mem"] };
    let (sites, mut ops, _) = g.world(mix, kinds, if heavy { 1 } else { 3 }, &cfg);
    // some archives are opened and held by readers, which read again later
    g.final_opens(&sites, &mut ops);
    if !heavy {
        scenes(g, &sites, &cfg, false, 10, &mut ops);
    }
    if g.pct(50) {
        ops.push(Op::new("chkv"));
    }
    for s in &sites {
        if s.kind == "file" && !heavy && g.pct(30) {
            // another process, after this one died
            let to = format!("{}z{}", s.disk, g.id());
            ops.push(Op::new("reboot").with("disk", &s.disk).with("to", &to));
            let n = g.id();
            ops.push(Op::new("stor").with("s", n).with("kind", "file").with("disk", &to).with("root", &s.root));
            ops.push(Op::new("open").with("s", n).with("arc", s.arc.name));
        }
        if g.pct(40) && cfg.giant == "" {
            ops.push(Op::new("res").with("s", s.s));
        }
    }
    let mut p = finish("C01", ops);
    if g.pct(75) {
        let n = g.r.range(1, if heavy { 6 } else { 20 });
        g.some_faults(&mut p, n, &|op, k, _| is_w(op) && (k == Kind::Write || k == Kind::OpenCreate), FaultSet::Soft);
    }
    p
}

fn c02(g: &mut G, heavy: bool) -> Plan {
    let cfg = Cfg {
        optional: 60,
        skip_required: if g.pct(30) { 20 } else { 0 },
        abandon: if g.pct(25) { 30 } else { 0 },
        max_n: 10,
        raw_max: 60,
        ..Cfg::plain()
    };
    let cfg = if heavy {
        Cfg { optional: 30, stream: 90, max_n: 24, raw_max: 300, ..cfg }
    } else if g.pct(10) {
        Cfg { max_n: 60, raw_max: 500, ..cfg }
    } else {
        cfg
    };
    let kinds: &[&'static str] = &["file", "file", "file", "mem"];
    let mix: &[(&str, u64)] = &[("Flat", 4), ("AllOpt", 3), ("Nest", 2), ("Mini", 3), ("Leaf", 3), ("Mid", 3), ("Narrow", 1), ("Lay", 1)];
    let mix = if heavy { &[("Big", 1)][..] } else { mix };
    let (sites, ops, first) = g.world(mix, kinds, if heavy { 1 } else { 2 }, &cfg);
    // other processes open the archives at any time
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.below(6) {
            let (o, n) = g.reader_store(s);
            extra.extend(o);
            extra.push(Op::new("open").with("s", n).with("arc", s.arc.name));
            if g.pct(20) {
                extra.push(Op::new("res").with("s", n));
            }
        }
    }
    let mut ops = g.sprinkle(ops, extra, first.saturating_sub(1));
    if !heavy {
        scenes(g, &sites, &cfg, false, 15, &mut ops);
    }
    let mut disks: Vec<&String> = sites.iter().filter(|s| s.kind == "file").map(|s| &s.disk).collect();
    disks.sort();
    disks.dedup();
    for d in disks {
        let seed = g.seed();
        ops.push(Op::new("crash").with("disk", d).with("mode", "prefix").with("seed", seed).with("max", if heavy { 12 } else { 150 }));
        let seed = g.seed();
        let max = if heavy { 6 } else { g.r.range(10, 60) };
        ops.push(Op::new("crash").with("disk", d).with("mode", "loss").with("seed", seed).with("max", max));
    }
    g.final_opens(&sites, &mut ops);
    let mut p = finish("C02", ops);
    match g.r.below(4) {
        0 => {
            let n = g.r.range(1, 8);
            g.some_faults(&mut p, n, &|op, k, _| is_w(op) && (k == Kind::Write || k == Kind::OpenCreate), FaultSet::Soft)
        }
        1 => {
            let n = g.r.range(1, 3);
            g.some_faults(&mut p, n, &|op, k, _| is_w(op) && k.is_store(), FaultSet::Mixed)
        }
        _ => {}
    }
    p
}

/// adds another round of writing for some parts, after failures
fn retry_tasks(g: &mut G, site: &Site, cfg: &Cfg) -> Vec<Op> {
    let mut t = vec![];
    if g.pct(40) {
        t.push(Op::new("new").with("s", site.s).with("b", site.b).with("arc", site.arc.name));
    }
    let f = g.tasks(site.arc, site.b, cfg);
    t.extend(g.schedule(f));
    t
}

/// one failure after the other: many attempts at every part, most of them in vain
fn unlucky(g: &mut G, cfg: &mut Cfg) -> &'static [(&'static str, u64)] {
    cfg.redo = 97;
    cfg.max_attempts = g.r.range(8, 30);
    cfg.max_n = 6;
    cfg.raw_max = 20;
    cfg.abandon = if g.pct(50) { 0 } else { 40 };
    cfg.stream = *g.r.pick(&[10, 50, 95]);
    &[("Flat", 2), ("AllOpt", 4), ("Mini", 2), ("Leaf", 2)]
}

/// what fails again and again
fn every_time(g: &mut G, p: &mut Plan) {
    let what = *g.r.pick(&["close", "close", "push", "set", "any"]);
    let n = g.r.range(10, 90);
    g.some_faults(
        p,
        n,
        &|op, k, _| is_w(op) && op.name != "new" && (what == "any" || op.name == what) && k.is_store(),
        FaultSet::Hard,
    );
}

fn c03(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg {
        optional: 70,
        redo: 30,
        max_attempts: 3,
        abandon: 5,
        max_n: 16,
        hold: 10,
        ..Cfg::plain()
    };
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { &[("Flat", 5), ("AllOpt", 4), ("Nest", 2), ("Mini", 3), ("Leaf", 3), ("Mid", 3), ("Lay", 1)] };
    if heavy {
        cfg.optional = 35;
        cfg.redo = 10;
        cfg.stream = 90;
        if g.pct(12) {
            mix = g.many(&mut cfg);
        }
    }
    let again = !heavy && g.pct(5);
    if again {
        mix = unlucky(g, &mut cfg);
    }
    let (sites, mut ops, first) = g.world(mix, &["file"], if heavy || again { 1 } else { 2 }, &cfg);
    if g.pct(25) {
        // the disk fills up, and has room again later
        let n = g.r.below(if heavy { 80 << 20 } else { 400 });
        let extra = vec![Op::new("cap").with("n", n), Op::new("cap").with("n", "off")];
        let lo = if g.pct(80) { first } else { 0 };
    ops = g.sprinkle(ops, extra, lo);
    }
    if g.pct(15) {
        let n = g.r.below(6);
        let extra = vec![Op::new("fdlim").with("n", n), Op::new("fdlim").with("n", "off")];
        let lo = if g.pct(80) { first } else { 0 };
    ops = g.sprinkle(ops, extra, lo);
    }
    ops.push(Op::new("cap").with("n", "off"));
    ops.push(Op::new("fdlim").with("n", "off"));
    g.final_opens(&sites, &mut ops);
    for s in &sites {
        ops.push(Op::new("res").with("s", s.s));
    }
    let rounds = g.r.below(3);
    for _ in 0..rounds {
        if heavy {
            break;
        }
        let rc = Cfg { redo: 0, abandon: 0, ..cfg.clone() };
        for s in &sites {
            let t = retry_tasks(g, s, &rc);
            ops.extend(t);
        }
        g.final_opens(&sites, &mut ops);
    }
    let mut p = finish("C03", ops);
    if again {
        every_time(g, &mut p);
        return p;
    }
    let ev = probe(&p);
    let n = g.r.range(0, 4);
    let late = g.pct(70);
    g.place(
        &mut p,
        &ev,
        n + 1,
        &|op, k, _| is_w(op) && k.is_store() && !(late && op.name == "new"),
        FaultSet::Mixed,
    );
    if g.pct(30) {
        // status and reading may fail, too
        g.place(&mut p, &ev, 1, &|op, k, _| is_w(op) && k.is_load(), FaultSet::Hard);
    }
    p
}

fn c04(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg { optional: 70, redo: 15, max_attempts: 2, ..Cfg::plain() };
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { READ_MIX };
    if heavy {
        cfg.optional = 40;
        cfg.redo = 0;
        if g.pct(12) {
            mix = g.many(&mut cfg);
        }
    }
    if g.pct(10) {
        cfg.max_n = 200;
        cfg.raw_max = 9000;
    }
    let (sites, ops, first) = g.world(mix, &["file"], if heavy { 1 } else { 3 }, &cfg);
    let mut extra = vec![];
    for s in &sites {
        if g.pct(40) && !heavy {
            let (o, n) = g.reader_store(s);
            extra.extend(o);
            extra.push(Op::new("open").with("s", n).with("arc", s.arc.name));
        }
    }
    let mut disks: Vec<String> = sites.iter().map(|s| s.disk.clone()).collect();
    disks.sort();
    disks.dedup();
    for d in &disks {
        if g.pct(30) {
            extra.push(Op::new("tree").with("disk", d));
        }
    }
    let mut ops = g.sprinkle(ops, extra, first);
    for d in &disks {
        ops.push(Op::new("tree").with("disk", d));
    }
    let mut p = finish("C04", ops);
    match g.r.below(5) {
        0 => {}
        1 if !heavy => {
            // every write comes through in pieces
            let n = g.r.range(1, 5);
            let ev = probe(&p);
            for op in p.ops.iter_mut() {
                if let Some(v) = ev.get(&op.id) {
                    if let Some((at, _, _, _)) = v.iter().find(|e| e.1 == Kind::Write) {
                        op.faults.push((*at, Act::ShortAll(n)));
                    }
                }
            }
        }
        _ => {
            let n = g.r.range(1, if heavy { 8 } else { 25 });
            g.some_faults(&mut p, n, &|op, k, _| is_w(op) && (k == Kind::Write || k == Kind::OpenCreate), FaultSet::Soft);
        }
    }
    p
}

/// all files (relative to `root`) that the plan leaves on the site's disk
fn files_of(p: &Plan, site: &Site) -> Vec<(String, u64)> {
    crate::exec::tree_after(p, &site.disk)
}

fn damage(g: &mut G, files: &[(String, u64)], only: Option<&dyn Fn(&str) -> bool>) -> String {
    let cand: Vec<&(String, u64)> = files.iter().filter(|f| only.map_or(true, |o| o(&f.0))).collect();
    let mut acts = vec![];
    if cand.is_empty() {
        return String::new();
    }
    let n = if g.pct(80) { 1 } else { g.r.range(2, 4) };
    for _ in 0..n {
        let (f, len) = (*g.r.pick(&cand)).clone();
        let schema = f.ends_with(".schema");
        let pos = |g: &mut G| -> u64 {
            if len == 0 {
                return 0;
            }
            if schema || len < 17 || g.pct(30) {
                g.r.below(len)
            } else {
                // header, payload, padding
                match g.r.below(3) {
                    0 => g.r.below(8),
                    1 => 8 + g.r.below((len - 16).max(1)),
                    _ => len - 8 + g.r.below(8),
                }
            }
        };
        if g.pct(2) {
            // something of the wrong kind
            acts.push(match f.rfind('/') {
                Some(i) if g.pct(50) => format!("file:{}", &f[..i]),
                _ => format!("dir:{}", f),
            });
            continue;
        }
        if schema && g.pct(40) {
            acts.push(format!("txt:{}:{}", f, g.r.below(RETEXTS)));
            continue;
        }
        let act = match g.r.below(17) {
            16 => {
                let was = len.saturating_sub(16);
                let n = match g.r.below(5) {
                    0 => 0,
                    1 => was.saturating_sub(1),
                    2 => was + g.r.range(1, 9),
                    3 => g.r.below(was + 1),
                    _ => g.r.below(2 * was + 20),
                };
                format!("fit:{}:{}:{}", f, n, *g.r.pick(&[0u64, 0, 1, 255]))
            }
            0 | 1 | 2 => format!("flip:{}:{}:{}", f, pos(g), g.r.below(8)),
            3 => {
                let v = *g.r.pick(&[0u64, 0xff, 0x80, 0xc3, 0xe2, 10, 13, 32, 127]);
                format!("byte:{}:{}:{}", f, pos(g), v)
            }
            4 | 5 => {
                let n = match g.r.below(6) {
                    0 => 0,
                    1 => len.saturating_sub(1),
                    2 => g.r.below(17),
                    3 => 8,
                    4 => 16,
                    _ => g.r.below(len + 1),
                };
                format!("trunc:{}:{}", f, n.min(len))
            }
            6 => {
                let n = *g.r.pick(&[1u64, 1, 2, 7, 8, 16, 4096]);
                let v = *g.r.pick(&[0u64, 0, 10, 32, 255]);
                format!("ext:{}:{}:{}", f, n, v)
            }
            7 => format!("rm:{}", f),
            8 | 9 => {
                let v = match g.r.below(10) {
                    0 => 0,
                    1 => u64::max_value(),
                    2 => u64::max_value() - g.r.below(40),
                    3 => 1 << 63,
                    4 => (1u64 << 63) - g.r.below(20),
                    5 => g.r.next(),
                    6 => len,
                    7 => len.wrapping_sub(8),
                    8 => 1 << 32,
                    _ => g.r.below(len + 32),
                };
                format!("hdr:{}:{}", f, v)
            }
            10 => {
                let d = *g.r.pick(&[1i64, -1, 8, -8, 16, -16, 256, -256, 1 << 32, i64::min_value(), 65536]);
                format!("hdrd:{}:{}", f, d)
            }
            11 => {
                let o = (*g.r.pick(&cand)).0.clone();
                format!("copy:{}:{}", f, o)
            }
            12 => {
                let o = (*g.r.pick(&cand)).0.clone();
                format!("swap:{}:{}", f, o)
            }
            13 | 14 => format!("cut:{}:{}", f, pos(g)),
            _ => {
                let v = *g.r.pick(&[0u64, 10, 13, 32, 65, 255, 0xc3]);
                format!("ins:{}:{}:{}", f, pos(g), v)
            }
        };
        acts.push(act);
    }
    acts.join(";")
}

fn c05(g: &mut G) -> Plan {
    let cfg = Cfg { optional: 60, max_n: 8, raw_max: 40, ..Cfg::plain() };
    let mix: &[(&str, u64)] = &[("Flat", 5), ("AllOpt", 2), ("Nest", 3), ("Mini", 3), ("Leaf", 3), ("Mid", 3), ("Narrow", 1)];
    let arc = g.pick_arc(mix);
    let root = g.root();
    let (s, t) = g.archive(arc, "file", "d0", root, &cfg);
    let ops = g.schedule(vec![t]);
    let mut p = finish("C05", ops);
    let files = files_of(&p, &s);
    let n = g.r.range(40, 90);
    for _ in 0..n {
        let acts = if g.pct(25) {
            // the signature and the schemas deserve some more attention
            damage(g, &files, Some(&|f: &str| f.ends_with(".archive") || f.ends_with(".schema")))
        } else if g.pct(15) {
            damage(g, &files, Some(&|f: &str| f.ends_with("_index")))
        } else {
            damage(g, &files, None)
        };
        if acts.is_empty() {
            continue;
        }
        p.push(
            Op::new("dmg").with("disk", "d0").with("root", &s.root).with("arc", arc.name).with("acts", acts),
        );
    }
    p
}

fn c06(g: &mut G) -> Plan {
    let cfg = Cfg { optional: 50, max_n: 8, raw_max: 40, redo: 10, max_attempts: 2, skip_required: 10, ..Cfg::plain() };
    let mix: &[(&str, u64)] = SMALL_MIX;
    let (sites, ops, first) = g.world(mix, &["file", "file", "mem"], 3, &cfg);
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.range(1, 5) {
            let mut slot = s.s;
            if s.kind == "file" && g.pct(50) {
                slot = g.id();
                extra.push(s.stor(slot));
            }
            // the same again, or something else next to it
            let same = g.pct(70);
            let b = g.id();
            if same {
                extra.push(Op::new("new").with("s", slot).with("b", b).with("arc", s.arc.name));
            } else {
                let other = g.pick_arc(SMALL_MIX);
                if other.name != s.arc.name && names(other).is_disjoint(&names(s.arc)) {
                    extra.push(Op::new("new").with("s", slot).with("b", b).with("arc", other.name));
                }
            }
            if g.pct(50) {
                for part in s.arc.parts {
                    if part.is_sub() && g.pct(60) {
                        let nb = g.id();
                        extra.push(Op::new("sub").with("from", s.b).with("b", nb).with("part", part.name));
                    }
                }
            }
            if g.pct(30) {
                extra.push(Op::new("open").with("s", slot).with("arc", s.arc.name));
            }
        }
    }
    let lo = if g.pct(80) { first } else { 0 };
    let mut ops = g.sprinkle(ops, extra, lo);
    let mut disks: Vec<String> = sites.iter().filter(|s| s.kind == "file").map(|s| s.disk.clone()).collect();
    disks.sort();
    disks.dedup();
    g.final_opens(&sites, &mut ops);
    scenes(g, &sites, &cfg, false, 30, &mut ops);
    for d in &disks {
        ops.push(Op::new("tree").with("disk", d).with("dirs", "any"));
    }
    let mut p = finish("C06", ops);
    // a crash somewhere in the history; what is there then may not be created again, either
    if g.pct(40) {
        let news: Vec<(u32, Op)> = p.ops.iter().filter(|o| is_w(o)).map(|o| (o.id, o.clone())).collect();
        for s in sites.iter().filter(|s| s.kind == "file") {
            let (id, _) = g.r.pick(&news).clone();
            let k = g.r.below(6);
            let torn = if g.pct(30) { g.r.range(1, 12) as i64 } else { -1 };
            let to = format!("{}c{}", s.disk, g.id());
            p.push(Op::new("reboot").with("disk", &s.disk).with("to", &to).with("at", format!("{}:{}:{}", id, k, torn)));
            let (slot, b) = (g.id(), g.id());
            let s2 = Site { s: slot, b, disk: to.clone(), ..s.clone() };
            p.push(s2.stor(slot));
            for _ in 0..2 {
                p.push(Op::new("new").with("s", slot).with("b", b).with("arc", s.arc.name));
            }
            p.push(s2.open());
            if g.pct(50) {
                for op in retry_tasks(g, &s2, &Cfg { max_n: 4, ..cfg.clone() }) {
                    p.push(op);
                }
                p.push(s2.open());
            }
            p.push(Op::new("tree").with("disk", &to).with("dirs", "any"));
        }
    }
    if g.pct(60) {
        let n = g.r.range(1, 4);
        g.some_faults(&mut p, n, &|op, k, _| (op.name == "new" || op.name == "sub") && k == Kind::Stat, FaultSet::Hard);
    }
    if g.pct(15) {
        g.some_faults(&mut p, 1, &|op, k, _| (op.name == "new" || op.name == "sub") && k.is_store(), FaultSet::Mixed);
    }
    p
}

fn c07(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg { optional: 60, redo: 20, max_attempts: 2, abandon: 5, skip_required: 5, ..Cfg::plain() };
    let mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { SMALL_MIX };
    if heavy {
        cfg.optional = 30;
        cfg.redo = 0;
    }
    let (sites, ops, first) = g.world(mix, &["file", "file", "mem"], if heavy { 1 } else { 2 }, &cfg);
    let mut extra = vec![];
    for s in &sites {
        let shared = g.id();
        let use_shared = s.kind == "file" && g.pct(40);
        if use_shared {
            extra.push(s.stor(shared));
        }
        for _ in 0..g.r.range(1, if heavy { 3 } else { 8 }) {
            let slot = if use_shared && g.pct(60) { shared } else { s.s };
            match g.r.below(10) {
                0 | 1 => extra.push(Op::new("res").with("s", slot)),
                2 => {
                    // another archive that is not there
                    let other = g.pick_arc(SMALL_MIX);
                    if other.name != s.arc.name {
                        extra.push(Op::new("open").with("s", slot).with("arc", other.name));
                    }
                }
                _ => extra.push(Op::new("open").with("s", slot).with("arc", s.arc.name)),
            }
            if s.kind == "file" && g.pct(12) {
                hide(g, s, slot, &mut extra);
            }
        }
    }
    let lo = if g.pct(70) { first } else { 0 };
    let mut ops = g.sprinkle(ops, extra, lo);
    // while faults may still hit
    for s in &sites {
        for _ in 0..g.r.below(3) {
            ops.push(s.open());
        }
    }
    if !heavy {
        scenes(g, &sites, &cfg, false, 25, &mut ops);
    }
    let nfault = ops.len();
    g.final_opens(&sites, &mut ops);
    let mut p = finish("C07", ops);
    let last: u32 = p.ops[nfault.min(p.ops.len() - 1)].id;
    if g.pct(75) {
        let n = g.r.range(1, 8);
        g.some_faults(
            &mut p,
            n,
            &|op, k, _| (op.name == "open" || op.name == "res") && op.id < last && k.is_load(),
            FaultSet::Hard,
        );
    }
    p
}

/// very many resources of one storage in use at once
fn many_views(g: &mut G) -> Plan {
    let mut ops = vec![];
    let s = g.id();
    let kind = *g.r.pick(&["file", "file", "mem"]);
    ops.push(Op::new("stor").with("s", s).with("kind", kind).with("disk", "dm").with("root", "many"));
    let n = g.r.range(40, 300);
    let mut left: Vec<u64> = (0..n).collect();
    for i in 0..n {
        let len = g.r.below(60);
        ops.push(
            Op::new("wres").with("s", s).with("name", format!("p{}", i)).with("schema", "many").with("seed", g.seed()).with("n", len),
        );
    }
    let reader = g.id();
    ops.push(Op::new("stor").with("s", reader).with("kind", kind).with("disk", "dm").with("root", "many"));
    let reader = if kind == "mem" || g.pct(30) { s } else { reader };
    g.r.shuffle(&mut left);
    let step = g.r.range(7, 50);
    for (k, i) in left.iter().enumerate() {
        ops.push(Op::new("rhold").with("s", reader).with("part", format!("p{}", i)).with("v", g.id()));
        if k as u64 % step == step - 1 {
            ops.push(Op::new("chkv"));
        }
    }
    ops.push(Op::new("chkv"));
    if kind == "mem" || g.pct(20) {
        // written again and again, and looked at each time
        let few = g.r.range(1, 6);
        for _ in 0..g.r.range(3, 60) {
            let name = format!("p{}", g.r.below(few));
            let len = g.r.below(60);
            ops.push(
                Op::new("wres").with("s", s).with("name", &name).with("schema", "many").with("seed", g.seed()).with("n", len),
            );
            ops.push(Op::new("rhold").with("s", reader).with("part", &name).with("v", g.id()));
            if g.pct(20) {
                ops.push(Op::new("chkv"));
            }
        }
        ops.push(Op::new("chkv"));
    }
    if g.pct(50) {
        // again, from the start: what was looked at first may no longer be at hand
        for i in left.iter().take(20) {
            ops.push(Op::new("rhold").with("s", reader).with("part", format!("p{}", i)).with("v", g.id()));
        }
        ops.push(Op::new("chkv"));
    }
    ops.push(Op::new("drop").with("s", if g.pct(50) { s } else { reader }));
    ops.push(Op::new("chkv"));
    finish("C08", ops)
}

fn c08(g: &mut G) -> Plan {
    let cfg = Cfg { optional: 75, redo: 15, max_attempts: 2, hold: 80, max_n: 16, raw_max: 200, ..Cfg::plain() };
    if g.pct(2) {
        return many_views(g);
    }
    let mix: &[(&str, u64)] =
        &[("Flat", 5), ("AllOpt", 4), ("Nest", 3), ("Mini", 2), ("Leaf", 3), ("Mid", 3), ("Lay", 1)];
    let (sites, ops, first) = g.world(mix, &["file", "mem"], 2, &cfg);
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.below(3) {
            extra.push(Op::new("open").with("s", s.s).with("arc", s.arc.name));
            extra.push(Op::new("chkv"));
        }
        if g.pct(30) {
            extra.push(Op::new("rhold").with("s", s.s).with("part", s.arc.parts[g.r.idx(s.arc.parts.len())].name).with("v", g.id()));
        }
    }
    let mut ops = g.sprinkle(ops, extra, first);
    // readers in all their lifetimes
    let mut handles: Vec<Op> = vec![];
    let mut tasks: Vec<Task> = vec![];
    for s in &sites {
        for _ in 0..g.r.range(1, 3) {
            let mut t = Task::new();
            let (o, n) = g.reader_store(s);
            if let Some(o) = o {
                t.push_back(Step::Op(o));
                handles.push(Op::new("drop").with("s", n));
            }
            let a = g.id();
            t.push_back(Step::Op(Op::new("open").with("s", n).with("arc", s.arc.name).with("a", a)));
            handles.push(Op::new("drop").with("a", a));
            let mut archives: Vec<(u64, &'static ArcDef)> = vec![(a, s.arc)];
            for _ in 0..g.r.range(2, 8) {
                let (x, arc) = *g.r.pick(&archives);
                match g.r.below(5) {
                    0 => {
                        let d = g.id();
                        t.push_back(Step::Op(Op::new("dupa").with("from", x).with("a", d)));
                        archives.push((d, arc));
                        handles.push(Op::new("drop").with("a", d));
                    }
                    1 => {
                        let subs: Vec<&PartDef> = arc.parts.iter().filter(|p| p.is_sub()).collect();
                        if !subs.is_empty() {
                            let p = *g.r.pick(&subs);
                            if let PartKind::Sub(sub) = p.kind {
                                let d = g.id();
                                t.push_back(Step::Op(Op::new("suba").with("from", x).with("a", d).with("part", p.name)));
                                archives.push((d, sub));
                                handles.push(Op::new("drop").with("a", d));
                            }
                        }
                    }
                    _ => {
                        let parts: Vec<&PartDef> = arc.parts.iter().filter(|p| !p.is_sub()).collect();
                        let p = *g.r.pick(&parts);
                        let v = g.id();
                        t.push_back(Step::Op(Op::new("hold").with("a", x).with("part", p.name).with("v", v)));
                    }
                }
            }
            if g.pct(50) {
                let part = s.arc.parts[g.r.idx(s.arc.parts.len())].name;
                t.push_back(Step::Op(Op::new("rhold").with("s", n).with("part", part).with("v", g.id())));
            }
            tasks.push(t);
        }
        // and more writing of parts nobody looks at, or of parts whose old views then go stale
        let f = g.tasks(s.arc, s.b, &Cfg { optional: 30, skip_required: 80, ..cfg.clone() });
        let mut t = Task::new();
        t.push_back(Step::Fork(f));
        tasks.push(t);
    }
    let mid = g.schedule(tasks);
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.range(1, 6) {
            match g.r.below(4) {
                0 => extra.push(s.open()),
                1 => {
                    let other = g.pick_arc(SMALL_MIX);
                    extra.push(Op::new("open").with("s", s.s).with("arc", other.name));
                }
                2 => extra.push(Op::new("res").with("s", s.s)),
                _ => {}
            }
            extra.push(Op::new("chkv"));
        }
    }
    let mid = g.sprinkle(mid, extra, 0);
    ops.extend(mid);
    scenes(g, &sites, &cfg, true, 35, &mut ops);
    // now everything goes, in some order
    for s in &sites {
        handles.push(Op::new("drop").with("s", s.s));
        handles.push(Op::new("drop").with("b", s.b));
    }
    g.r.shuffle(&mut handles);
    for h in handles {
        ops.push(h);
        ops.push(Op::new("chkv"));
        if g.pct(15) {
            // memory gets used again
            let n = g.id();
            ops.push(Op::new("stor").with("s", n).with("kind", "mem").with("disk", "q"));
            ops.push(Op::new("wres").with("s", n).with("name", "fill").with("schema", "f").with("n", g.r.below(400)).with("seed", 1));
        }
    }
    let mut p = finish("C08", ops);
    if g.pct(50) {
        let n = g.r.range(1, 5);
        g.some_faults(
            &mut p,
            n,
            &|op, k, _| (op.name == "open" || op.name == "res" || op.name == "rhold") && k.is_load(),
            FaultSet::Hard,
        );
    }
    p
}

fn c09(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg {
        optional: 70,
        redo: 65,
        max_attempts: 4,
        abandon: 15,
        max_n: 16,
        raw_max: 120,
        stream: 55,
        ..Cfg::plain()
    };
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { &[("Flat", 5), ("AllOpt", 4), ("Nest", 2), ("Mini", 3), ("Leaf", 3), ("Mid", 2), ("Lay", 1)] };
    if heavy {
        cfg.optional = 50;
        cfg.max_attempts = 3;
        if g.pct(6) {
            mix = g.many(&mut cfg);
        }
    }
    let (sites, ops, first) = g.world(mix, &["file", "file", "mem"], if heavy { 1 } else { 2 }, &cfg);
    let mut extra = vec![];
    for s in &sites {
        let shared = g.id();
        let use_shared = s.kind == "file" && g.pct(60);
        if use_shared {
            extra.push(s.stor(shared));
        }
        for _ in 0..g.r.range(1, 8) {
            let slot = if use_shared && g.pct(60) { shared } else { s.s };
            if g.pct(35) {
                extra.push(Op::new("res").with("s", slot));
            } else {
                extra.push(Op::new("open").with("s", slot).with("arc", s.arc.name));
            }
        }
    }
    let mut ops = g.sprinkle(ops, extra, first);
    g.final_opens(&sites, &mut ops);
    if !heavy {
        scenes(g, &sites, &cfg, false, 40, &mut ops);
    }
    for s in &sites {
        if heavy && g.pct(60) {
            // once more, whatever became of the first attempts
            let t = retry_tasks(g, s, &Cfg { redo: 0, abandon: 0, ..cfg.clone() });
            ops.extend(t);
            ops.push(s.open());
        }
        ops.push(Op::new("res").with("s", s.s));
    }
    let disks: BTreeSet<String> = sites.iter().filter(|s| s.kind == "file").map(|s| s.disk.clone()).collect();
    if !heavy {
        for d in &disks {
            if g.pct(60) {
                let seed = g.seed();
                ops.push(Op::new("crash").with("disk", d).with("mode", "prefix").with("seed", seed).with("max", 60));
            }
        }
    }
    for d in &disks {
        ops.push(Op::new("tree").with("disk", d));
    }
    let mut p = finish("C09", ops);
    if !heavy && g.pct(40) {
        // crash, then write everything again on what is left
        for s in sites.iter().filter(|s| s.kind == "file") {
            let ws: Vec<u32> = p.ops.iter().filter(|o| is_w(o)).map(|o| o.id).collect();
            let id = *g.r.pick(&ws);
            let to = format!("{}c{}", s.disk, g.id());
            let at = format!("{}:{}:{}", id, g.r.below(7), if g.pct(40) { g.r.range(1, 20) as i64 } else { -1 });
            p.push(Op::new("reboot").with("disk", &s.disk).with("to", &to).with("at", at));
            let (slot, b) = (g.id(), g.id());
            let s2 = Site { s: slot, b, disk: to.clone(), ..s.clone() };
            p.push(s2.stor(slot));
            p.push(s2.open());
            p.push(Op::new("new").with("s", slot).with("b", b).with("arc", s.arc.name));
            // generated code gives no builder for an existing archive; parts are then rewritten
            // through the storage itself
            for part in s.arc.parts {
                if let PartKind::Raw = part.kind {
                    p.push(
                        Op::new("wres")
                            .with("s", slot)
                            .with("name", part.name)
                            .with("schema", quote(part.schema))
                            .with("seed", g.seed())
                            .with("n", g.r.small(80)),
                    );
                }
            }
            for op in retry_tasks(g, &s2, &cfg) {
                p.push(op);
            }
            p.push(s2.open());
            p.push(Op::new("res").with("s", slot));
        }
    }
    if g.pct(if heavy { 80 } else { 45 }) {
        let n = g.r.range(1, 4);
        // with much data: in the middle of it
        let late = heavy && g.pct(65);
        g.some_faults(
            &mut p,
            n,
            &|op, k, _| {
                let data = op.name == "push" || op.name == "close";
                k.is_store() && if late { data } else { is_w(op) && op.name != "new" }
            },
            FaultSet::Mixed,
        );
    }
    p
}

pub fn quote(s: &str) -> String {
    s.replace(' ', "~").replace('\n', "%n").replace('\u{a0}', "%s")
}

fn c10(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg {
        optional: 75,
        redo: 35,
        max_attempts: 3,
        abandon: 60,
        stream: 85,
        max_n: 16,
        raw_max: 60,
        ..Cfg::plain()
    };
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { &[("Flat", 5), ("AllOpt", 5), ("Nest", 2), ("Leaf", 2), ("Mid", 2), ("Narrow", 1), ("Lay", 1)] };
    if heavy {
        cfg.optional = 30;
        cfg.redo = 10;
        if g.pct(12) {
            mix = g.many(&mut cfg);
        }
    }
    let again = !heavy && g.pct(4);
    if again {
        mix = unlucky(g, &mut cfg);
    }
    let (sites, ops, first) = g.world(mix, &["file", "file", "mem"], if heavy { 1 } else { 2 }, &cfg);
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.below(6) {
            let (o, n) = g.reader_store(s);
            extra.extend(o);
            extra.push(Op::new("open").with("s", n).with("arc", s.arc.name));
            if g.pct(40) {
                extra.push(Op::new("res").with("s", n));
            }
        }
    }
    let mut ops = g.sprinkle(ops, extra, first);
    g.final_opens(&sites, &mut ops);
    for s in &sites {
        ops.push(Op::new("res").with("s", s.s));
    }
    let mut p = finish("C10", ops);
    if again {
        every_time(g, &mut p);
        return p;
    }
    if g.pct(60) {
        let n = g.r.range(1, 5);
        g.some_faults(
            &mut p,
            n,
            &|op, k, _| {
                (op.name == "start" || op.name == "push" || op.name == "close" || op.name == "dropw" || op.name == "set")
                    && k.is_store()
            },
            FaultSet::Mixed,
        );
    }
    p
}

fn c11(g: &mut G) -> Plan {
    let cfg = Cfg {
        optional: 75,
        abandon: 15,
        redo: 10,
        max_attempts: 2,
        max_n: 8,
        raw_max: 40,
        ..Cfg::plain()
    };
    let mix: &[(&str, u64)] = &[("Flat", 4), ("AllOpt", 6), ("Nest", 3), ("Mid", 3), ("Narrow", 1), ("Lay", 2)];
    let arc = g.pick_arc(mix);
    let root = g.root();
    let kind = if g.pct(80) { "file" } else { "mem" };
    let (s, t) = g.archive(arc, kind, "d0", root, &cfg);
    let ops = g.schedule(vec![t]);
    let first = ops.iter().position(|o| o.name == "new").map_or(0, |i| i + 1);
    let extra: Vec<Op> = (0..g.r.below(4)).map(|_| s.open()).collect();
    let ops = g.sprinkle(ops, extra, first);
    let mut p = finish("C11", ops);
    let write_end = p.ops.len();
    // optional parts whose writing fails
    if kind == "file" && g.pct(30) {
        let base = site_base(&s);
        let n = g.r.range(1, 2);
        g.some_faults(
            &mut p,
            n,
            &|op, k, path| {
                is_w(op) && k.is_store() && rel_to(path, &base).map_or(false, |r| crate::check::absorber(arc, r).is_some())
            },
            FaultSet::Hard,
        );
    }
    p.push(s.open());
    if g.pct(35) {
        for op in scene(g, &s, &cfg, false) {
            p.push(op);
        }
    }
    if kind == "file" {
        // trouble while opening
        for _ in 0..g.r.range(1, 6) {
            if g.pct(60) {
                let n = g.id();
                p.push(s.stor(n));
                p.push(Op::new("open").with("s", n).with("arc", arc.name));
            } else {
                p.push(s.open());
            }
        }
        let from = p.ops[write_end.min(p.ops.len() - 1)].id;
        let base = site_base(&s);
        let n = g.r.range(1, 8);
        g.some_faults(
            &mut p,
            n,
            &|op, k, path| {
                op.name == "open"
                    && op.id > from
                    && k.is_load()
                    && rel_to(path, &base).map_or(false, |r| crate::check::absorber(arc, r).is_some())
            },
            FaultSet::Hard,
        );
        p.push(s.open());
        // damage
        let files = files_of(&p, &s);
        let strip = |f: &str| -> Option<String> {
            if s.root.is_empty() {
                Some(f.to_string())
            } else if f.starts_with(&format!("{}/", s.root)) {
                Some(f[s.root.len() + 1..].to_string())
            } else {
                None
            }
        };
        for _ in 0..g.r.range(10, 30) {
            let acts = damage(
                g,
                &files,
                Some(&|f: &str| strip(f).map_or(false, |r| crate::check::absorber(arc, &r).is_some())),
            );
            if !acts.is_empty() {
                p.push(Op::new("dmg").with("disk", "d0").with("root", &s.root).with("arc", arc.name).with("acts", acts));
            }
        }
    }
    p
}

fn site_base(s: &Site) -> String {
    if s.root.is_empty() {
        format!("{}/{}/", crate::vfs::ROOT, s.disk)
    } else {
        format!("{}/{}/{}/", crate::vfs::ROOT, s.disk, s.root)
    }
}

fn rel_to<'a>(path: &'a str, base: &str) -> Option<&'a str> {
    if path.starts_with(base) {
        Some(&path[base.len()..])
    } else {
        None
    }
}

const NAMES: &[&str] = &["a", "b", "sub/a", "sub/b", "sub/deep/c", "x.y", "n\u{e4}me", "a_index", "q/a", "sub//b", "./a", "sub/./a"];
const SCHEMAS: &[&str] = &["one", "two~words", "line%nbreak", "%e", "%0", "one%n", "One"];

fn c12(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg {
        optional: 65,
        redo: 30,
        max_attempts: 3,
        abandon: 15,
        skip_required: 8,
        max_n: 14,
        raw_max: 100,
        ..Cfg::plain()
    };
    if heavy {
        cfg.optional = 30;
        cfg.redo = 0;
    }
    let mut tasks: Vec<Task> = vec![];
    let mut sites: Vec<Site> = vec![];
    let with_archives = heavy || g.pct(70);
    if with_archives {
        let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { READ_MIX };
        if heavy && g.pct(12) {
            mix = g.many(&mut cfg);
        }
        let arc = g.pick_arc(mix);
        let root = g.root();
        let (s, t) = g.archive(arc, "file", "d0", root, &cfg);
        // another archive through the same storage
        if !heavy && g.pct(40) {
            let other = g.pick_arc(SMALL_MIX);
            if other.name != arc.name && names(other).is_disjoint(&names(arc)) {
                let b = g.id();
                let mut t2 = Task::new();
                t2.push_back(Step::Op(Op::new("new").with("s", s.s).with("b", b).with("arc", other.name)));
                let f = g.tasks(other, b, &cfg);
                t2.push_back(Step::Fork(f));
                t2.push_back(Step::Op(Op::new("open").with("s", s.s).with("arc", other.name)));
                tasks.push(t2);
            }
        }
        tasks.push(t);
        // readers and second creators
        let mut t3 = Task::new();
        for _ in 0..g.r.below(8) {
            match g.r.below(6) {
                0 => {
                    let b = g.id();
                    t3.push_back(Step::Op(Op::new("new").with("s", s.s).with("b", b).with("arc", arc.name)));
                }
                1 => t3.push_back(Step::Op(Op::new("res").with("s", s.s))),
                2 => {
                    let a = g.id();
                    t3.push_back(Step::Op(s.open().with("a", a)));
                    t3.push_back(Step::Op(Op::new("reread").with("a", a)));
                }
                3 => {
                    let other = g.pick_arc(READ_MIX);
                    t3.push_back(Step::Op(Op::new("open").with("s", s.s).with("arc", other.name)));
                }
                4 => {
                    // a name that the archive uses, looked at directly
                    let p = &s.arc.parts[g.r.idx(s.arc.parts.len())];
                    let n = match g.r.below(3) {
                        0 => p.name.to_string(),
                        1 => format!("{}.schema", p.name),
                        _ => format!("{}.archive", s.arc.name),
                    };
                    t3.push_back(Step::Op(Op::new("ex").with("s", s.s).with("name", &n)));
                    t3.push_back(Step::Op(Op::new("rres").with("s", s.s).with("name", p.name).with("schema", "wrong").with("any", 1)));
                }
                _ => t3.push_back(Step::Op(s.open())),
            }
        }
        tasks.push(t3);
        sites.push(s);
    }
    if !heavy && (!with_archives || g.pct(50)) {
        // plain resources
        let s0 = g.id();
        let mut stores: Vec<u64> = vec![s0];
        let mut t = Task::new();
        t.push_back(Step::Op(Op::new("stor").with("s", s0).with("kind", "file").with("disk", "d2").with("root", "st")));
        for d in &["sub", "sub/deep", "q", "sub/", "./sub", "sub//deep"] {
            if g.pct(30) {
                let n = g.id();
                t.push_back(Step::Op(Op::new("sdir").with("from", s0).with("s", n).with("dir", d)));
                stores.push(n);
            }
        }
        let mut subtasks: Vec<Task> = vec![];
        for _ in 0..g.r.range(2, 14) {
            let s = *g.r.pick(&stores);
            let name = *g.r.pick(NAMES);
            let schema = *g.r.pick(SCHEMAS);
            let seed = g.seed();
            let n = g.r.small(60);
            let mut q = Task::new();
            let op = |n: &str| Step::Op(Op::new(n).with("s", s).with("name", name));
            let ops = |n: &str, sc: &str| Step::Op(Op::new(n).with("s", s).with("name", name).with("schema", sc));
            match g.r.below(10) {
                0 | 1 | 2 | 3 => {
                    q.push_back(Step::Op(
                        Op::new("wres").with("s", s).with("name", name).with("schema", schema).with("seed", seed).with("n", n),
                    ));
                    if g.pct(50) {
                        q.push_back(ops("rres", schema));
                    }
                    if g.pct(25) {
                        // and once more, nearly the same
                        let tw = g.r.range(1, 2 * n + 2);
                        q.push_back(Step::Op(
                            Op::new("wres").with("s", s).with("name", name).with("schema", schema).with("seed", seed).with("n", n).with("tw", tw),
                        ));
                        q.push_back(ops("rres", schema));
                    }
                }
                4 | 5 => {
                    let w = g.id();
                    let which = if g.pct(50) { "vst" } else { "mst" };
                    q.push_back(Step::Op(
                        Op::new(which).with("s", s).with("name", name).with("schema", schema).with("seed", seed).with("w", w),
                    ));
                    for _ in 0..g.r.below(3) {
                        q.push_back(Step::Op(Op::new("push").with("w", w).with("n", g.r.range(1, 6))));
                        if g.pct(20) {
                            q.push_back(ops("rres", schema));
                        }
                    }
                    if g.pct(80) {
                        q.push_back(Step::Op(Op::new("close").with("w", w)));
                    } else {
                        q.push_back(Step::Op(Op::new("dropw").with("w", w).with("mode", "unwind")));
                    }
                }
                6 => {
                    let h = g.id();
                    q.push_back(Step::Op(Op::new("cos").with("s", s).with("name", name).with("h", h)));
                    for _ in 0..g.r.below(4) {
                        q.push_back(Step::Op(Op::new("cosw").with("h", h).with("seed", g.seed()).with("n", g.r.small(40))));
                        if g.pct(30) {
                            q.push_back(op("rraw"));
                        }
                    }
                    q.push_back(Step::Op(Op::new("cosd").with("h", h)));
                    q.push_back(op("rraw"));
                }
                7 => q.push_back(op("ex")),
                8 => q.push_back(ops("rres", schema)),
                _ => q.push_back(op("rraw")),
            }
            subtasks.push(q);
        }
        t.push_back(Step::Fork(subtasks));
        tasks.push(t);
        let mut tail = vec![];
        for s in &stores {
            for n in NAMES {
                let p = Op::new("x").with("s", s).with("name", n);
                for (k, sc) in &[("ex", ""), ("rraw", ""), ("rres", "one"), ("rres", "two~words"), ("rres", "%0")] {
                    if g.pct(50) {
                        let mut o = p.clone();
                        o.name = k.to_string();
                        if !sc.is_empty() {
                            o = o.with("schema", sc);
                        }
                        tail.push(o);
                    }
                }
            }
        }
        let mut ops = g.schedule(tasks);
        g.r.shuffle(&mut tail);
        ops.extend(tail);
        for s in &sites {
            ops.push(s.open());
            ops.push(Op::new("res").with("s", s.s));
        }
        return c12_end(g, ops);
    }
    let mut ops = g.schedule(tasks);
    for s in &sites {
        ops.push(s.open());
        ops.push(Op::new("res").with("s", s.s));
    }
    c12_end(g, ops)
}

fn c12_end(g: &mut G, ops: Vec<Op>) -> Plan {
    let mut p = finish("C12", ops);
    if g.pct(60) {
        let n = g.r.range(1, 12);
        g.some_faults(&mut p, n, &|op, k, _| is_w(op) && (k == Kind::Write || k == Kind::OpenCreate), FaultSet::Soft);
    }
    p
}

fn c13(g: &mut G, heavy: bool) -> Plan {
    let mut cfg = Cfg {
        optional: 65,
        redo: 35,
        max_attempts: 3,
        abandon: 20,
        hold: 40,
        max_n: 12,
        raw_max: 200,
        ..Cfg::plain()
    };
    let mut mix: &[(&str, u64)] = if heavy { &[("Big", 1)] } else { SMALL_MIX };
    if heavy {
        cfg.optional = 25;
        cfg.redo = 0;
    }
    let again = !heavy && g.pct(4);
    if again {
        mix = unlucky(g, &mut cfg);
    }
    let (sites, ops, first) = g.world(mix, &["file", "file", "mem"], if heavy { 1 } else { 2 }, &cfg);
    let mut extra = vec![];
    for s in &sites {
        for _ in 0..g.r.range(0, 5) {
            let (o, n) = g.reader_store(s);
            extra.extend(o);
            let mut op = Op::new("open").with("s", n).with("arc", s.arc.name);
            if g.pct(60) {
                let a = g.id();
                op = op.with("a", a);
                extra.push(op);
                if g.pct(50) {
                    let part = s.arc.parts[g.r.idx(s.arc.parts.len())].name;
                    extra.push(Op::new("hold").with("a", a).with("part", part).with("v", g.id()));
                }
                if g.pct(50) {
                    extra.push(Op::new("drop").with("a", a));
                }
            } else {
                extra.push(op);
            }
            if g.pct(30) {
                extra.push(Op::new("new").with("s", n).with("b", g.id()).with("arc", s.arc.name));
            }
            if g.pct(20) {
                extra.push(Op::new("res").with("s", n));
            }
        }
    }
    let mut ops = g.sprinkle(ops, extra, first);
    g.final_opens(&sites, &mut ops);
    if !heavy {
        scenes(g, &sites, &cfg, true, 25, &mut ops);
    }
    let mut p = finish("C13", ops);
    if again {
        every_time(g, &mut p);
        return p;
    }
    if g.pct(70) {
        let n = g.r.range(1, 6);
        g.some_faults(
            &mut p,
            n,
            &|op, k, _| (is_w(op) || op.name == "open" || op.name == "res") && (k.is_store() || k.is_load()),
            FaultSet::Mixed,
        );
    }
    p
}

fn c18(g: &mut G, heavy: bool) -> Plan {
    if heavy {
        let mut cfg = Cfg { optional: 100, stream: 100, redo: 20, max_attempts: 2, ..Cfg::plain() };
        cfg.giant = ["hs", "gs", "hm"][g.r.below(3) as usize];
        cfg.giant_bytes = g.r.range(500, 1500) << 20;
        let (sites, mut ops, _) = g.world(&[("Big", 1)], &["file"], 1, &cfg);
        g.final_opens(&sites, &mut ops);
        let mut p = finish("C18", ops);
        if g.pct(50) {
            let n = g.r.range(1, 6);
            g.some_faults(&mut p, n, &|op, k, _| is_w(op) && k == Kind::Write, FaultSet::Mixed);
        }
        return p;
    }
    let cfg = Cfg { optional: 55, max_n: 12, raw_max: 100, ..Cfg::plain() };
    let (sites, mut ops, _) = g.world(SMALL_MIX, &["file", "file", "mem"], 2, &cfg);
    for _ in 0..g.r.range(1, 2) {
        let k = g.id();
        let mut round = vec![];
        for s in &sites {
            if g.pct(60) {
                spoil(g, s, &ops, &mut round);
            }
            let (o, n) = g.reader_store(s);
            round.extend(o);
            for _ in 0..g.r.range(1, 5) {
                visit(g, s, n, &mut round);
            }
        }
        round.push(Op::new("mark").with("k", k));
        for _ in 0..g.r.range(6, 12) {
            ops.extend(round.clone());
        }
    }
    g.final_opens(&sites, &mut ops);
    finish("C18", ops)
}

/// attempts to write something that get nowhere
fn spoil(g: &mut G, s: &Site, before: &[Op], round: &mut Vec<Op>) {
    for _ in 0..g.r.range(1, 2) {
        if g.pct(30) {
            round.push(Op::new("new").with("s", s.s).with("b", g.id()).with("arc", s.arc.name));
            continue;
        }
        let unused = |p: &&PartDef| !p.is_sub() && !before.iter().any(|o| o.u("b") == s.b && o.s("part") == p.name);
        let parts: Vec<&PartDef> = s.arc.parts.iter().filter(unused).collect();
        if parts.is_empty() {
            continue;
        }
        let p = *g.r.pick(&parts);
        let n = g.r.range(0, 12);
        if p.is_streamable() && g.pct(60) {
            let w = g.id();
            round.push(Op::new("start").with("b", s.b).with("w", w).with("part", p.name).with("seed", g.seed()));
            if n > 0 {
                round.push(Op::new("push").with("w", w).with("n", n));
            }
            let mode = if g.pct(50) { "unwind" } else { "plain" };
            round.push(Op::new("dropw").with("w", w).with("mode", mode));
        } else if p.is_settable() && s.kind == "file" {
            let mut op =
                Op::new("set").with("b", s.b).with("part", p.name).with("seed", g.seed()).with("n", n).with("how", g.r.below(24));
            let e = *g.r.pick(&[libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES]);
            op.faults.push((g.r.below(4) as u32, Act::ErrAll(e)));
            round.push(op);
        }
    }
}

/// what readers do, with or without success
fn visit(g: &mut G, s: &Site, n: u64, round: &mut Vec<Op>) {
    let open = Op::new("open").with("s", n).with("arc", s.arc.name);
    let at = round.len();
    match g.r.below(8) {
        0 | 1 => round.push(open),
        2 | 3 => {
            let a = g.id();
            round.push(open.with("a", a));
            if g.pct(50) {
                let part = s.arc.parts[g.r.idx(s.arc.parts.len())].name;
                round.push(Op::new("hold").with("a", a).with("part", part).with("v", g.id()));
            }
            let mut handles = vec![a];
            if g.pct(40) {
                let c = g.id();
                round.push(Op::new("dupa").with("from", a).with("a", c));
                handles.push(c);
            }
            if g.pct(30) {
                round.push(Op::new("reread").with("a", a));
            }
            g.r.shuffle(&mut handles);
            for h in handles {
                round.push(Op::new("drop").with("a", h));
            }
        }
        4 => round.push(Op::new("res").with("s", n)),
        5 => round.push(Op::new("new").with("s", n).with("b", g.id()).with("arc", s.arc.name)),
        6 => {
            let part = s.arc.parts[g.r.idx(s.arc.parts.len())].name;
            round.push(Op::new("rres").with("s", n).with("name", part).with("schema", "other").with("any", 1));
        }
        _ => round.push(Op::new("ex").with("s", n).with("name", *g.r.pick(&["none", "x/y", "meta", "Leaf.archive"]))),
    }
    if g.pct(25) {
        let i = g.r.range(at as u64, round.len() as u64 - 1) as usize;
        let e = *g.r.pick(&[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENOMEM]);
        let at = g.r.below(12) as u32;
        round[i].faults.push((at, if g.pct(50) { Act::ErrAll(e) } else { Act::Err(e) }));
    }
}
