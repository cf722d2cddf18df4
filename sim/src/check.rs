//! The reference model's state and the oracles that compare it with what the library shows.

use crate::model::*;
use crate::schemas::*;
use flatdata::ResourceStorageError as RSE;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Violation {
    /// short and stable: the minimiser keeps it
    pub class: String,
    pub detail: String,
    pub op: u32,
    /// explicit crash point to use when replaying: op:mutation:torn
    pub crash: Option<String>,
}

pub fn viol<T>(class: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail, op: 0, crash: None })
}

#[derive(Clone)]
pub struct PState {
    pub kind: &'static PartKind,
    pub schema: Rc<str>,
    /// finished successfully, nothing attempted since: must be visible exactly
    pub settled: Option<Rc<Content>>,
    /// otherwise: nothing, or one of these
    pub maybe: Vec<Rc<Content>>,
    /// attempts to write so far
    pub tries: u32,
}

impl PState {
    pub fn fresh(kind: &'static PartKind, schema: &str) -> PState {
        PState { kind, schema: Rc::from(schema), settled: None, maybe: vec![], tries: 0 }
    }
    pub fn begin(&mut self) {
        self.tries += 1;
        if let Some(c) = self.settled.take() {
            self.add(c);
        }
    }
    pub fn add(&mut self, c: Rc<Content>) {
        if !self.maybe.iter().any(|m| **m == *c) {
            self.maybe.push(c);
        }
    }
    pub fn settle(&mut self, c: Rc<Content>) {
        self.maybe.clear();
        self.settled = Some(c);
    }
    pub fn same(&self, o: &PState) -> bool {
        let eq = |a: &Option<Rc<Content>>, b: &Option<Rc<Content>>| match (a, b) {
            (None, None) => true,
            (Some(x), Some(y)) => Rc::ptr_eq(x, y) || **x == **y,
            _ => false,
        };
        self.tries == o.tries
            && eq(&self.settled, &o.settled)
            && self.maybe.len() == o.maybe.len()
            && self.maybe.iter().zip(&o.maybe).all(|(x, y)| Rc::ptr_eq(x, y) || **x == **y)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig {
    Settled,
    Maybe,
}

#[derive(Clone, Default)]
pub struct Model {
    /// full path of the part -> state; a part that is not listed was never attempted
    pub parts: BTreeMap<String, PState>,
    /// (place, archive name) -> state of the signature; not listed: never created
    pub sigs: BTreeMap<(String, &'static str), Sig>,
}

pub fn join(place: &str, name: &str) -> String {
    // the same resource, however its name is spelled
    let name = name.split('/').filter(|c| !c.is_empty() && *c != ".").collect::<Vec<_>>().join("/");
    if place.is_empty() {
        name
    } else {
        format!("{}/{}", place, name)
    }
}

#[derive(Clone, Copy, PartialEq, Debug, PartialOrd, Ord, Eq)]
pub enum Tri {
    Never,
    May,
    Must,
}

impl Model {
    pub fn part_tri(&self, path: &str) -> Tri {
        match self.parts.get(path) {
            None => Tri::Never,
            Some(p) if p.settled.is_some() => Tri::Must,
            Some(p) if p.maybe.is_empty() => Tri::Never,
            Some(_) => Tri::May,
        }
    }
    /// can / must the archive at this place open?
    pub fn tri(&self, place: &str, arc: &'static ArcDef) -> Tri {
        let mut t = match self.sigs.get(&(place.to_string(), arc.name)) {
            None => Tri::Never,
            Some(Sig::Maybe) => Tri::May,
            Some(Sig::Settled) => Tri::Must,
        };
        for p in arc.parts {
            if p.optional {
                continue;
            }
            let path = join(place, p.name);
            let pt = match p.kind {
                PartKind::Sub(sub) => self.tri(&path, sub),
                _ => self.part_tri(&path),
            };
            t = t.min(pt);
        }
        t
    }
    /// the state after a crash that happened somewhere inside the step from `self` to `after`
    pub fn merge(&self, after: &Model) -> Model {
        let mut m = Model::default();
        let keys: BTreeSet<&String> = self.parts.keys().chain(after.parts.keys()).collect();
        for k in keys {
            let (a, b) = (self.parts.get(k), after.parts.get(k));
            let s = match (a, b) {
                (Some(a), Some(b)) if a.same(b) => a.clone(),
                (a, b) => {
                    let any = b.or(a).unwrap();
                    let mut n = PState { kind: any.kind, schema: any.schema.clone(), settled: None, maybe: vec![], tries: any.tries };
                    for x in a.into_iter().chain(b) {
                        for c in x.settled.iter().chain(x.maybe.iter()) {
                            n.add(c.clone());
                        }
                    }
                    n
                }
            };
            m.parts.insert(k.clone(), s);
        }
        let keys: BTreeSet<_> = self.sigs.keys().chain(after.sigs.keys()).cloned().collect();
        for k in keys {
            let s = match (self.sigs.get(&k), after.sigs.get(&k)) {
                (Some(a), Some(b)) if a == b => *a,
                _ => Sig::Maybe,
            };
            m.sigs.insert(k, s);
        }
        m
    }
    /// nothing is certain any more (each file may have lost its latest writes)
    pub fn demote(&self) -> Model {
        let mut m = self.clone();
        for p in m.parts.values_mut() {
            p.begin();
        }
        for s in m.sigs.values_mut() {
            *s = Sig::Maybe;
        }
        m
    }
    pub fn rebase(&self, from: &str, to: &str) -> Model {
        let re = |k: &String| -> Option<String> {
            if k == from {
                Some(to.to_string())
            } else if k.starts_with(&format!("{}/", from)) {
                Some(format!("{}{}", to, &k[from.len()..]))
            } else {
                None
            }
        };
        let mut m = Model::default();
        for (k, p) in &self.parts {
            if let Some(n) = re(k) {
                m.parts.insert(n, p.clone());
            }
        }
        for ((k, a), s) in &self.sigs {
            if let Some(n) = re(k) {
                m.sigs.insert((n, a), *s);
            }
        }
        m
    }
    /// archives created below a disk
    pub fn roots(&self, disk: &str) -> Vec<(String, &'static str)> {
        self.sigs.keys().filter(|(p, _)| p == disk || p.starts_with(&format!("{}/", disk))).cloned().collect()
    }
}

pub type Snapshot = BTreeMap<String, Option<Rc<Content>>>;

/// Which optional part absorbs a failure at `rel` (a path relative to the archive's directory)?
pub fn absorber(arc: &'static ArcDef, rel: &str) -> Option<String> {
    for p in arc.parts {
        match p.kind {
            PartKind::Sub(sub) => {
                let pre = format!("{}/", p.name);
                if rel == p.name || rel.starts_with(&pre) {
                    if rel.len() > pre.len() {
                        if let Some(x) = absorber(sub, &rel[pre.len()..]) {
                            return Some(format!("{}{}", pre, x));
                        }
                    }
                    return if p.optional { Some(p.name.to_string()) } else { None };
                }
            }
            _ => {
                if part_file_names(p).iter().any(|n| n == rel) {
                    return if p.optional { Some(p.name.to_string()) } else { None };
                }
            }
        }
    }
    None
}

pub fn errstr(e: &RSE) -> String {
    match e {
        RSE::Io(e, n) => format!("Io({:?},{})", e.kind(), n),
        RSE::Utf8Error(_) => "Utf8".into(),
        RSE::MissingSchema(n) => format!("MissingSchema({})", n),
        RSE::WrongSignature { resource_name, .. } => format!("WrongSignature({})", resource_name),
        RSE::UnexpectedDataSize => "Size".into(),
    }
}

/// category of failure, without names or operating system specifics
pub fn errcat(e: &RSE) -> String {
    match e {
        RSE::Io(e, _) => iocat(e),
        RSE::Utf8Error(_) => "Utf8".into(),
        RSE::MissingSchema(_) => "Io:NotFound".into(),
        RSE::WrongSignature { resource_name, .. } => format!("WrongSignature({})", resource_name),
        RSE::UnexpectedDataSize => "Size".into(),
    }
}

pub fn iocat(e: &io::Error) -> String {
    match e.kind() {
        io::ErrorKind::NotFound => "Io:NotFound".into(),
        io::ErrorKind::AlreadyExists => "Io:AlreadyExists".into(),
        _ => "Io:other".into(),
    }
}

/// Compares everything an opened archive shows with the model. `lenient` are paths (relative to
/// the archive) of optional parts that a fault has hit while opening.
pub fn check_archive(
    model: &Model,
    place: &str,
    arc: &'static ArcDef,
    a: &dyn DynArchive,
    rel: &str,
    lenient: &BTreeSet<String>,
    snap: &mut Snapshot,
) -> Result<(), Violation> {
    if !model.sigs.contains_key(&(place.to_string(), arc.name)) {
        return viol("archive that was never created opens", format!("{} at {}", arc.name, place));
    }
    for p in arc.parts {
        let path = join(place, p.name);
        let relp = join(rel, p.name);
        match p.kind {
            PartKind::Sub(sub) => {
                let t = model.tri(&path, sub);
                match a.sub(p.name) {
                    Some(s) => {
                        if t == Tri::Never {
                            return viol(
                                "unfinished subarchive is visible",
                                format!("{} in {} at {}", p.name, arc.name, place),
                            );
                        }
                        snap.insert(relp.clone(), Some(Rc::new(Content::Raw(vec![]))));
                        check_archive(model, &path, sub, s, &relp, lenient, snap)?;
                    }
                    None => {
                        if !p.optional {
                            return viol("required subarchive is absent", path);
                        }
                        if t == Tri::Must && !lenient.contains(&relp) {
                            return viol("finished optional subarchive is absent", path);
                        }
                        snap.insert(relp, None);
                    }
                }
            }
            _ => {
                let shown = match a.read(p.name) {
                    Ok(x) => x,
                    Err(e) => return viol("access paths disagree", format!("{}: {}", path, e)),
                };
                match shown {
                    None => {
                        if !p.optional {
                            return viol("required part is absent", path);
                        }
                        if model.part_tri(&path) == Tri::Must && !lenient.contains(&relp) {
                            return viol("finished optional part is absent", path);
                        }
                        snap.insert(relp, None);
                    }
                    Some(c) => {
                        let c = Rc::new(c);
                        match model.parts.get(&path) {
                            None => {
                                return viol("part that was never written is visible", format!("{}: {:?}", path, c))
                            }
                            Some(s) => match &s.settled {
                                Some(x) => {
                                    if **x != *c {
                                        return viol(
                                            "finished part reads back differently",
                                            format!("{}: wrote {:?}, read {:?}", path, x, c),
                                        );
                                    }
                                }
                                None => {
                                    if !s.maybe.iter().any(|m| **m == *c) {
                                        return viol(
                                            "part shows content that no finished write gave it",
                                            format!("{}: read {:?}, possible {:?}", path, c, s.maybe),
                                        );
                                    }
                                }
                            },
                        }
                        snap.insert(relp, Some(c));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Compares an archive that was opened before with what it showed then.
pub fn check_same(arc: &'static ArcDef, a: &dyn DynArchive, rel: &str, snap: &Snapshot) -> Result<(), Violation> {
    for p in arc.parts {
        let relp = join(rel, p.name);
        let was = match snap.get(&relp) {
            Some(w) => w,
            None => continue,
        };
        match p.kind {
            PartKind::Sub(sub) => match (a.sub(p.name), was.is_some()) {
                (Some(s), true) => check_same(sub, s, &relp, snap)?,
                (None, false) => {}
                _ => return viol("opened archive changed", relp),
            },
            _ => match a.read(p.name) {
                Err(e) => return viol("access paths disagree", format!("{}: {}", relp, e)),
                Ok(now) => {
                    let same = match (&now, was) {
                        (None, None) => true,
                        (Some(x), Some(y)) => *x == **y,
                        _ => false,
                    };
                    if !same {
                        return viol("opened archive changed", format!("{}: was {:?}, now {:?}", relp, was, now));
                    }
                }
            },
        }
    }
    Ok(())
}

// ---- what bytes at rest mean -----------------------------------------------------------------

pub enum Res {
    Good(Vec<u8>),
    Bad(Vec<String>),
}

/// Independent reading of one resource from its two files.
pub fn resource(files: &BTreeMap<String, Vec<u8>>, path: &str, name: &str, schema: &str) -> Res {
    let mut bad = vec![];
    let d = files.get(path);
    let s = files.get(&format!("{}.schema", path));
    match d {
        None => bad.push("Io:NotFound".to_string()),
        Some(d) => {
            let ok = d.len() >= 16 && {
                let mut h = [0u8; 8];
                h.copy_from_slice(&d[..8]);
                u64::from_le_bytes(h) == (d.len() - 16) as u64
            };
            if !ok {
                bad.push("Size".into());
            }
        }
    }
    match s {
        None => bad.push("Io:NotFound".to_string()),
        Some(s) => match std::str::from_utf8(s) {
            Err(_) => bad.push("Utf8".into()),
            Ok(t) => {
                if t != schema {
                    bad.push(format!("WrongSignature({})", name));
                }
            }
        },
    }
    if bad.is_empty() {
        let d = d.unwrap();
        Res::Good(d[8..d.len() - 8].to_vec())
    } else {
        Res::Bad(bad)
    }
}

fn part_resources(files: &BTreeMap<String, Vec<u8>>, place: &str, p: &PartDef) -> Result<(Vec<u8>, Vec<u8>), Vec<String>> {
    let mut errs = vec![];
    let mut idx = vec![];
    if let PartKind::Multi { .. } = p.kind {
        let n = format!("{}_index", p.name);
        match resource(files, &join(place, &n), &n, &format!("index({})", p.schema)) {
            Res::Good(b) => idx = b,
            Res::Bad(e) => errs.extend(e),
        }
    }
    let mut one = vec![];
    match resource(files, &join(place, p.name), p.name, p.schema) {
        Res::Good(b) => {
            one = b;
            if let PartKind::Struct(d) = p.kind {
                if one.len() != d.size {
                    errs.push("Size".into());
                }
            }
        }
        Res::Bad(e) => errs.extend(e),
    }
    if errs.is_empty() {
        Ok((one, idx))
    } else {
        Err(errs)
    }
}

/// Error categories with which opening these files may fail; empty: it must succeed.
pub fn damage_errors(files: &BTreeMap<String, Vec<u8>>, place: &str, arc: &'static ArcDef) -> Vec<String> {
    let mut errs = vec![];
    let sn = format!("{}.archive", arc.name);
    if let Res::Bad(e) = resource(files, &join(place, &sn), &sn, arc.schema) {
        errs.extend(e);
    }
    for p in arc.parts {
        if p.optional {
            continue;
        }
        match p.kind {
            PartKind::Sub(sub) => errs.extend(damage_errors(files, &join(place, p.name), sub)),
            _ => {
                if let Err(e) = part_resources(files, place, p) {
                    errs.extend(e);
                }
            }
        }
    }
    errs
}

/// Compares what an archive opened over damaged files shows with what the bytes decode to.
pub fn damage_check(
    files: &BTreeMap<String, Vec<u8>>,
    place: &str,
    arc: &'static ArcDef,
    a: &dyn DynArchive,
    rel: &str,
    lenient: &BTreeSet<String>,
) -> Result<(), Violation> {
    for p in arc.parts {
        let relp = join(rel, p.name);
        match p.kind {
            PartKind::Sub(sub) => {
                let errs = damage_errors(files, &join(place, p.name), sub);
                match a.sub(p.name) {
                    Some(s) => {
                        if !errs.is_empty() {
                            return viol("damaged subarchive is shown", format!("{}: {:?}", relp, errs));
                        }
                        damage_check(files, &join(place, p.name), sub, s, &relp, lenient)?;
                    }
                    None => {
                        if errs.is_empty() && !lenient.contains(&relp) {
                            return viol("intact optional subarchive is absent", relp);
                        }
                    }
                }
            }
            _ => {
                let res = part_resources(files, place, p);
                let (one, idx) = match res {
                    Err(errs) => {
                        // only an optional part gets here; it must be absent
                        match guard(|| a.read(p.name)) {
                            Ok(Ok(None)) => continue,
                            _ => return viol("damaged part is shown", format!("{}: {:?}", relp, errs)),
                        }
                    }
                    Ok(x) => x,
                };
                let want = decode(&p.kind, &one, &idx);
                match guard(|| a.read(p.name)) {
                    Ok(Ok(Some(c))) => match want {
                        Some(w) => {
                            if w != c {
                                return viol(
                                    "part does not read back as its stored bytes",
                                    format!("{}: stored {:?}, read {:?}", relp, w, c),
                                );
                            }
                        }
                        None => {
                            return viol("undecodable multivector reads back", format!("{}: {:?}", relp, c))
                        }
                    },
                    Ok(Ok(None)) => {
                        if !lenient.contains(&relp) {
                            return viol("intact optional part is absent", relp);
                        }
                    }
                    Ok(Err(e)) => {
                        if want.is_some() {
                            return viol("access paths disagree", format!("{}: {}", relp, e));
                        }
                    }
                    Err(msg) => {
                        if want.is_some() {
                            return viol("reading a decodable part panics", format!("{}: {}", relp, msg));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Runs a piece of the program under test; a panic becomes its message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let side = crate::alloc::Side::library();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    drop(side);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// how many kinds of `retext` there are
pub const RETEXTS: u64 = 32;

/// A schema as somebody else, or another version, might have written it.
pub fn retext(t: &str, kind: u64) -> String {
    let lines: Vec<&str> = t.split('\n').collect();
    let chars: Vec<char> = t.chars().collect();
    let mid = chars.len() / 2;
    let swap_lines = |a: usize, b: usize| -> String {
        let mut l = lines.clone();
        if l.len() > 1 {
            let n = l.len();
            l.swap(a % n, b % n);
        }
        l.join("\n")
    };
    let with = |i: usize, c: char| -> String {
        let mut v = chars.clone();
        if i < v.len() {
            v[i] = c;
        }
        v.into_iter().collect()
    };
    match kind {
        0 => format!("\u{feff}{}", t),
        1 => format!("{}\0", t),
        2 => format!("\0{}", t),
        3 => t.replace('\n', "\r\n"),
        4 => t.to_uppercase(),
        5 => t.to_lowercase(),
        6 => swap_lines(0, 1),
        7 => swap_lines(1, lines.len().saturating_sub(2)),
        8 => lines.iter().flat_map(|l| vec![*l, *l]).collect::<Vec<_>>().join("\n"),
        9 => lines[..lines.len() - 1].join("\n"),
        10 => lines[1..].join("\n"),
        11 => format!("{} // remark", t),
        12 => format!("// remark\n{}", t),
        13 => format!("{} /* remark */", t),
        14 => t.split_whitespace().collect::<Vec<_>>().join(" "),
        15 => t.split_whitespace().collect(),
        16 => t.replace(' ', "  "),
        17 => t.replace(' ', "\t"),
        18 => t.replace(' ', "\u{a0}"),
        19 => format!("{}\r", t),
        20 => format!(" {}", t),
        21 => format!("\n{}", t),
        22 => format!("{}{}", t, t),
        23 => chars[..mid].iter().collect(),
        24 => chars[mid..].iter().collect(),
        25 => with(chars.len().saturating_sub(1), '#'),
        26 => with(mid, '#'),
        27 => with(mid, '\u{e9}'),
        28 => {
            // the same letters in another order
            let mut v = chars.clone();
            if let Some(i) = (mid..v.len().saturating_sub(1)).find(|i| v[*i] != v[*i + 1]) {
                v.swap(i, i + 1);
            }
            v.into_iter().collect()
        }
        29 => t.replace("@optional", "").trim_start().to_string(),
        30 => format!("\"{}\"", t),
        _ => {
            let mut l = lines.clone();
            l.reverse();
            l.join("\n")
        }
    }
}
