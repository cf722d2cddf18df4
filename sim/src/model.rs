//! What an archive means, independent of the library: field layouts, parts, contents, and the
//! canonical bytes of both. Nothing in this file uses flatdata.

use crate::rng::{mix2, Rng};
use std::collections::BTreeMap;

#[derive(Debug)]
pub struct FieldDef {
    pub name: &'static str,
    pub off: usize,
    pub bits: usize,
}

#[derive(Debug)]
pub struct RecDef {
    pub name: &'static str,
    pub size: usize,
    pub fields: &'static [FieldDef],
}

/// raw bits of every field
pub type RecVal = Vec<u64>;

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    Rec(RecVal),
    Item(Vec<(usize, RecVal)>),
}

#[derive(Clone, PartialEq)]
pub enum Content {
    Struct(RecVal),
    Vec(Vec<RecVal>),
    Multi(Vec<Vec<(usize, RecVal)>>),
    Raw(Vec<u8>),
}

impl std::fmt::Debug for Content {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        fn cut(s: String) -> String {
            if s.len() > 160 {
                let mut n = 160;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                format!("{}...", &s[..n])
            } else {
                s
            }
        }
        match self {
            Content::Struct(v) => write!(f, "Struct{}", cut(format!("{:x?}", v))),
            Content::Vec(v) => write!(f, "Vec(len {}){}", v.len(), cut(format!("{:x?}", &v[..v.len().min(8)]))),
            Content::Multi(v) => write!(f, "Multi(len {}){}", v.len(), cut(format!("{:x?}", &v[..v.len().min(8)]))),
            Content::Raw(v) => write!(f, "Raw(len {}){}", v.len(), cut(format!("{:x?}", &v[..v.len().min(40)]))),
        }
    }
}

#[derive(Debug)]
pub enum PartKind {
    Struct(&'static RecDef),
    Vec(&'static RecDef),
    Multi { index: &'static RecDef, index_name: &'static str, variants: &'static [(u8, &'static RecDef)] },
    Raw,
    Sub(&'static crate::schemas::ArcDef),
}

#[derive(Debug)]
pub struct PartDef {
    pub name: &'static str,
    pub kind: PartKind,
    pub schema: &'static str,
    pub optional: bool,
}

impl PartDef {
    pub fn is_streamable(&self) -> bool {
        match self.kind {
            PartKind::Vec(_) | PartKind::Multi { .. } => true,
            _ => false,
        }
    }
    pub fn is_settable(&self) -> bool {
        match self.kind {
            PartKind::Vec(_) | PartKind::Struct(_) | PartKind::Raw => true,
            _ => false,
        }
    }
    pub fn is_sub(&self) -> bool {
        match self.kind {
            PartKind::Sub(_) => true,
            _ => false,
        }
    }
}

// ---- canonical bytes -----------------------------------------------------------------------

pub fn put_bits(buf: &mut [u8], off: usize, bits: usize, v: u64) {
    for i in 0..bits {
        let b = off + i;
        let m = 1u8 << (b % 8);
        if v >> i & 1 == 1 {
            buf[b / 8] |= m;
        } else {
            buf[b / 8] &= !m;
        }
    }
}

pub fn get_bits(buf: &[u8], off: usize, bits: usize) -> u64 {
    let mut v = 0;
    for i in 0..bits {
        let b = off + i;
        if buf[b / 8] >> (b % 8) & 1 == 1 {
            v |= 1u64 << i;
        }
    }
    v
}

pub fn enc_rec(d: &RecDef, v: &[u64], out: &mut Vec<u8>) {
    let s = out.len();
    out.resize(s + d.size, 0);
    for (f, x) in d.fields.iter().zip(v) {
        put_bits(&mut out[s..], f.off, f.bits, *x);
    }
}

pub fn dec_rec(d: &RecDef, b: &[u8]) -> RecVal {
    d.fields.iter().map(|f| get_bits(b, f.off, f.bits)).collect()
}

pub fn frame(payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(payload.len() + 16);
    v.extend_from_slice(&(payload.len() as u64).to_le_bytes());
    v.extend_from_slice(payload);
    v.extend_from_slice(&[0; 8]);
    v
}

pub enum Payload {
    One(Vec<u8>),
    /// index, data
    Two(Vec<u8>, Vec<u8>),
}

pub fn payload(k: &PartKind, c: &Content) -> Payload {
    match (k, c) {
        (PartKind::Struct(d), Content::Struct(v)) => {
            let mut o = vec![];
            enc_rec(d, v, &mut o);
            Payload::One(o)
        }
        (PartKind::Vec(d), Content::Vec(v)) => {
            let mut o = Vec::with_capacity(d.size * v.len());
            for r in v {
                enc_rec(d, r, &mut o);
            }
            Payload::One(o)
        }
        (PartKind::Multi { index, variants, .. }, Content::Multi(v)) => {
            let (mut i, mut o) = (vec![], vec![]);
            for item in v {
                enc_rec(index, &[o.len() as u64], &mut i);
                for (w, r) in item {
                    o.push(variants[*w].0);
                    enc_rec(variants[*w].1, r, &mut o);
                }
            }
            enc_rec(index, &[o.len() as u64], &mut i);
            Payload::Two(i, o)
        }
        (PartKind::Raw, Content::Raw(v)) => Payload::One(v.clone()),
        _ => panic!("content does not fit part"),
    }
}

/// Size in bytes of the data of a multivector item list.
pub fn item_size(k: &PartKind, item: &[(usize, RecVal)]) -> u64 {
    match k {
        PartKind::Multi { variants, .. } => item.iter().map(|(w, _)| 1 + variants[*w].1.size as u64).sum(),
        _ => 0,
    }
}

/// Decodes arbitrary payload bytes; None where the library may refuse with a contained panic.
pub fn decode(k: &PartKind, one: &[u8], idx: &[u8]) -> Option<Content> {
    match k {
        PartKind::Struct(d) => {
            if one.len() < d.size {
                return None;
            }
            Some(Content::Struct(dec_rec(d, one)))
        }
        PartKind::Vec(d) => {
            Some(Content::Vec(one.chunks(d.size).filter(|c| c.len() == d.size).map(|c| dec_rec(d, c)).collect()))
        }
        PartKind::Raw => Some(Content::Raw(one.to_vec())),
        PartKind::Multi { index, variants, .. } => {
            let offs: Vec<u64> =
                idx.chunks(index.size).filter(|c| c.len() == index.size).map(|c| get_bits(c, index.fields[0].off, index.fields[0].bits)).collect();
            if offs.is_empty() {
                return None;
            }
            let mut out = vec![];
            for w in offs.windows(2) {
                if w[0] > w[1] || w[1] > one.len() as u64 {
                    return None;
                }
                let mut b = &one[w[0] as usize..w[1] as usize];
                let mut item = vec![];
                while !b.is_empty() {
                    let v = variants.iter().position(|x| x.0 == b[0])?;
                    let d = variants[v].1;
                    if b.len() < 1 + d.size {
                        return None;
                    }
                    item.push((v, dec_rec(d, &b[1..])));
                    b = &b[1 + d.size..];
                }
                out.push(item);
            }
            Some(Content::Multi(out))
        }
        PartKind::Sub(_) => None,
    }
}

/// the files of one finished part, names relative to the archive's directory
pub fn part_files(p: &PartDef, c: &Content) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    match payload(&p.kind, c) {
        Payload::One(o) => {
            m.insert(p.name.to_string(), frame(&o));
        }
        Payload::Two(i, o) => {
            m.insert(p.name.to_string(), frame(&o));
            m.insert(format!("{}_index", p.name), frame(&i));
            m.insert(format!("{}_index.schema", p.name), format!("index({})", p.schema).into_bytes());
        }
    }
    m.insert(format!("{}.schema", p.name), p.schema.as_bytes().to_vec());
    m
}

pub fn signature_files(a: &crate::schemas::ArcDef) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    m.insert(format!("{}.archive", a.name), frame(&[]));
    m.insert(format!("{}.archive.schema", a.name), a.schema.as_bytes().to_vec());
    m
}

/// base names of all files that belong to a part
pub fn part_file_names(p: &PartDef) -> Vec<String> {
    match p.kind {
        PartKind::Multi { .. } => vec![
            p.name.to_string(),
            format!("{}.schema", p.name),
            format!("{}_index", p.name),
            format!("{}_index.schema", p.name),
        ],
        _ => vec![p.name.to_string(), format!("{}.schema", p.name)],
    }
}

// ---- contents from seeds -------------------------------------------------------------------

fn gen_rec(d: &RecDef, r: &mut Rng) -> RecVal {
    let mode = r.below(8);
    d.fields
        .iter()
        .map(|f| {
            let m = if f.bits == 64 { u64::max_value() } else { (1u64 << f.bits) - 1 };
            match mode {
                0 => 0,
                1 => m,
                2 => 1u64 << r.below(f.bits as u64),
                3 => m & !(1u64 << r.below(f.bits as u64)),
                _ => r.next() & m,
            }
        })
        .collect()
}

/// element `i` of a streamed or set sequence
pub fn gen_elem(k: &PartKind, seed: u64, i: u64) -> Elem {
    // now and then all elements, or every other, are equal
    let i = match mix2(seed, 0x52) % 40 {
        0 => 0,
        1 => i % 2,
        _ => i,
    };
    let mut r = Rng::new(mix2(seed, i.wrapping_add(0x51)));
    match k {
        PartKind::Vec(d) => Elem::Rec(gen_rec(d, &mut r)),
        PartKind::Multi { variants, .. } => {
            // very rarely an item of very many small records
            let rare = mix2(seed, 0x53) % 512;
            let long = rare < 8 && i == mix2(seed, 0x54) % 3 && variants.iter().all(|v| v.1.size < 100);
            let n = match r.below(6) {
                _ if long && rare == 0 => 65_534 + r.below(4),
                _ if long => 254 + r.below(4),
                0 => 0,
                1 | 2 => 1,
                3 => 2,
                4 => r.below(4),
                _ => r.below(9),
            };
            Elem::Item(
                (0..n)
                    .map(|_| {
                        let w = r.idx(variants.len());
                        (w, gen_rec(variants[w].1, &mut r))
                    })
                    .collect(),
            )
        }
        _ => panic!("no elements"),
    }
}

/// Content that is nearly the same: `tw` even changes one bit of one element, odd exchanges two
/// neighbours. Zero means no change.
pub fn near_elem(k: &PartKind, seed: u64, tw: u64, i: u64) -> Elem {
    let at = tw / 2;
    if tw == 0 || (tw % 2 == 0 && i != at - 1) {
        return gen_elem(k, seed, i);
    }
    if tw % 2 == 1 {
        return gen_elem(k, seed, if i == at { at + 1 } else if i == at + 1 { at } else { i });
    }
    let mut e = gen_elem(k, seed, i);
    let mut r = Rng::new(mix2(seed, tw));
    match (&mut e, k) {
        (Elem::Rec(v), PartKind::Vec(d)) => flip(d, v, &mut r),
        (Elem::Item(v), PartKind::Multi { variants, .. }) if !v.is_empty() => {
            let j = r.idx(v.len());
            let d = variants[v[j].0].1;
            flip(d, &mut v[j].1, &mut r)
        }
        _ => {}
    }
    e
}

fn flip(d: &RecDef, v: &mut RecVal, r: &mut Rng) {
    if !v.is_empty() {
        let f = r.idx(v.len());
        v[f] ^= 1u64 << r.below(d.fields[f].bits as u64);
    }
}

pub fn near_content(k: &PartKind, seed: u64, n: u64, tw: u64) -> Content {
    let mut c = gen_content(k, seed, n);
    if tw == 0 {
        return c;
    }
    let at = (tw / 2) as usize;
    match (&mut c, k) {
        (Content::Struct(v), PartKind::Struct(d)) => flip(d, v, &mut Rng::new(mix2(seed, tw))),
        (Content::Raw(v), _) => {
            if tw % 2 == 0 && at - 1 < v.len() {
                v[at - 1] ^= 1 << (seed % 8);
            } else if tw % 2 == 1 && at + 1 < v.len() {
                v.swap(at, at + 1);
            }
        }
        (Content::Vec(v), _) => {
            for i in 0..n {
                if let Elem::Rec(e) = near_elem(k, seed, tw, i) {
                    v[i as usize] = e;
                }
            }
        }
        (Content::Multi(v), _) => {
            for i in 0..n {
                if let Elem::Item(e) = near_elem(k, seed, tw, i) {
                    v[i as usize] = e;
                }
            }
        }
        _ => {}
    }
    c
}

pub fn gen_content(k: &PartKind, seed: u64, n: u64) -> Content {
    let mut r = Rng::new(mix2(seed, 0x77));
    match k {
        PartKind::Struct(d) => Content::Struct(gen_rec(d, &mut r)),
        PartKind::Raw => {
            let style = r.below(9);
            let mut v: Vec<u8> = (0..n)
                .map(|i| match style {
                    0 => 0,
                    1 => i as u8,
                    2 => 0xff,
                    3 => b" \nab"[(i % 4) as usize],
                    _ => r.next() as u8,
                })
                .collect();
            if style >= 7 {
                // ends like a stored resource, or is one
                let end = v.len();
                for b in &mut v[end.saturating_sub(8)..] {
                    *b = 0;
                }
                if style == 8 && end >= 16 {
                    v[..8].copy_from_slice(&(end as u64 - 16).to_le_bytes());
                }
            }
            Content::Raw(v)
        }
        PartKind::Vec(_) => Content::Vec(
            (0..n)
                .map(|i| match gen_elem(k, seed, i) {
                    Elem::Rec(v) => v,
                    _ => unreachable!(),
                })
                .collect(),
        ),
        PartKind::Multi { .. } => Content::Multi(
            (0..n)
                .map(|i| match gen_elem(k, seed, i) {
                    Elem::Item(v) => v,
                    _ => unreachable!(),
                })
                .collect(),
        ),
        PartKind::Sub(_) => panic!("no content"),
    }
}

pub fn empty_content(k: &PartKind) -> Content {
    match k {
        PartKind::Vec(_) => Content::Vec(vec![]),
        PartKind::Multi { .. } => Content::Multi(vec![]),
        _ => panic!("not streamable"),
    }
}

pub fn push_elem(c: &mut Content, e: Elem) {
    match (c, e) {
        (Content::Vec(v), Elem::Rec(r)) => v.push(r),
        (Content::Multi(v), Elem::Item(i)) => v.push(i),
        _ => panic!("element does not fit"),
    }
}
