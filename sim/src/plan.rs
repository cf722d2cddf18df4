//! Plans: the complete, explicit description of one simulated execution, as text.

use crate::vfs::{errname, errno_by_name, Act};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub name: String,
    pub kv: BTreeMap<String, String>,
    pub faults: Vec<(u32, Act)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub kv: BTreeMap<String, String>,
    pub ops: Vec<Op>,
}

impl Op {
    pub fn new(name: &str) -> Op {
        Op { id: 0, name: name.into(), kv: BTreeMap::new(), faults: vec![] }
    }
    pub fn with<T: ToString>(mut self, k: &str, v: T) -> Op {
        self.kv.insert(k.into(), v.to_string());
        self
    }
    pub fn s(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| &s[..]).unwrap_or("")
    }
    pub fn u(&self, k: &str) -> u64 {
        self.s(k).parse().unwrap_or(0)
    }
    pub fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
    pub fn text(&self) -> String {
        let mut s = format!("{} {}", self.id, self.name);
        for (k, v) in &self.kv {
            s.push_str(&format!(" {}={}", k, v));
        }
        if !self.faults.is_empty() {
            let f: Vec<String> = self.faults.iter().map(|(at, a)| format!("{}:{}", at, act_text(a))).collect();
            s.push_str(&format!(" ! {}", f.join(",")));
        }
        s
    }
}

pub fn act_text(a: &Act) -> String {
    match a {
        Act::Err(e) => errname(*e).into(),
        Act::ErrAll(e) => format!("{}*", errname(*e)),
        Act::Short(n) => format!("S{}", n),
        Act::ShortAll(n) => format!("S{}*", n),
    }
}

fn parse_act(t: &str) -> Option<Act> {
    let (t, all) = if t.ends_with('*') { (&t[..t.len() - 1], true) } else { (t, false) };
    if t.starts_with('S') {
        let n = t[1..].parse().ok()?;
        return Some(if all { Act::ShortAll(n) } else { Act::Short(n) });
    }
    let e = errno_by_name(t)?;
    Some(if all { Act::ErrAll(e) } else { Act::Err(e) })
}

impl Plan {
    pub fn new(prop: &str) -> Plan {
        Plan { prop: prop.into(), ..Plan::default() }
    }
    pub fn push(&mut self, mut op: Op) -> usize {
        op.id = self.ops.iter().map(|o| o.id).max().unwrap_or(0) + 1;
        self.ops.push(op);
        self.ops.len() - 1
    }
    /// Gives ids to operations that have none (id 0), keeping the others.
    pub fn number(&mut self) {
        let mut n = self.ops.iter().map(|o| o.id).max().unwrap_or(0);
        for o in self.ops.iter_mut() {
            if o.id == 0 {
                n += 1;
                o.id = n;
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::from("flatsim-plan 1\n");
        s.push_str(&format!("property {}\n", self.prop));
        for (k, v) in &self.kv {
            s.push_str(&format!("param {}={}\n", k, v));
        }
        for o in &self.ops {
            s.push_str(&o.text());
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        let mut first = true;
        for line in t.lines() {
            let line = line.trim_matches(|c: char| c.is_ascii_whitespace());
            if line.is_empty() || line.starts_with('#') || line.starts_with("===") {
                continue;
            }
            if first {
                if line != "flatsim-plan 1" {
                    return Err("not a plan file".into());
                }
                first = false;
                continue;
            }
            if line.starts_with("property ") {
                p.prop = line[9..].into();
                continue;
            }
            if line.starts_with("param ") {
                let kv = &line[6..];
                let e = kv.find('=').ok_or("param")?;
                p.kv.insert(kv[..e].into(), kv[e + 1..].into());
                continue;
            }
            let (head, faults) = match line.find(" ! ") {
                Some(i) => (&line[..i], &line[i + 3..]),
                None => (line, ""),
            };
            let mut w = head.split_ascii_whitespace();
            let id = w.next().ok_or("id")?.parse().map_err(|_| format!("id: {}", line))?;
            let mut op = Op::new(w.next().ok_or("op")?);
            op.id = id;
            for kv in w {
                let e = kv.find('=').ok_or_else(|| format!("kv: {}", line))?;
                op.kv.insert(kv[..e].into(), kv[e + 1..].into());
            }
            for f in faults.split(',').filter(|f| !f.is_empty()) {
                let c = f.find(':').ok_or("fault")?;
                let at = f[..c].trim().parse().map_err(|_| "fault index".to_string())?;
                op.faults.push((at, parse_act(&f[c + 1..]).ok_or_else(|| format!("fault: {}", f))?));
            }
            p.ops.push(op);
        }
        Ok(p)
    }
}
