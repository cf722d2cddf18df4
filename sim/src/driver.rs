//! Runs many seeds over all cores in worker processes, minimises what they find, and writes the
//! evidence.

use crate::alloc;
use crate::check::*;
use crate::exec::{self, Options, Outcome};
use crate::plan::*;
use crate::props;
use crate::rng::mix2;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as FW;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// processor time one execution may take
const RUN_LIMIT_S: i64 = 100;

const KILLED: &str = "the process is killed";

fn limit_cpu(seconds: i64) {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

/// memory one process may take: a program that grows without bound ends by itself, not the sandbox
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_DATA, &l);
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Executes a plan in the way its property asks for.
pub fn execute(plan: &Plan) -> (Result<(), Violation>, Outcome) {
    match &plan.prop[..] {
        "C12" => {
            let (r, mut o) = exec::run(plan, Options::default());
            if r.is_err() {
                return (r, o);
            }
            let (r2, o2) = exec::run(plan, Options { force_mem: true, ..Options::default() });
            if let Err(mut v) = r2 {
                v.class = format!("in memory: {}", v.class);
                return (Err(v), o);
            }
            for ((id, a), (_, b)) in o.outcomes.iter().zip(&o2.outcomes) {
                let name = plan.ops.iter().find(|x| x.id == *id).map(|x| x.name.clone()).unwrap_or_default();
                if name == "tree" || name == "crash" || name == "reboot" || name == "dmg" {
                    continue;
                }
                if a != b {
                    let v = Violation {
                        class: format!("the storages differ in {}", name),
                        detail: format!("op {}: on disk {}, in memory {}", id, a, b),
                        op: *id,
                        crash: None,
                    };
                    return (Err(v), o);
                }
            }
            o.hash = mix2(o.hash, o2.hash);
            *o.counters.entry("probe:outcomes_compared".into()).or_insert(0) += o.outcomes.len() as u64;
            (Ok(()), o)
        }
        "C13" => {
            let opt = Options { fds: true, ..Options::default() };
            let mut live = vec![];
            let mut hash = vec![];
            for _ in 0..3 {
                let (r, o) = exec::run(plan, opt.clone());
                if r.is_err() {
                    return (r, o);
                }
                hash.push(o.hash);
                drop(o);
                drop(r);
                crate::vfs::reset();
                live.push(alloc::live());
                if live.len() == 2 && live[0] == live[1] {
                    break;
                }
            }
            let (r, mut o) = exec::run(plan, opt);
            if r.is_err() {
                return (r, o);
            }
            *o.counters.entry("probe:live_bytes_compared".into()).or_insert(0) += 1;
            if live.len() == 3 && live[2] > live[1] && live[1] > live[0] {
                let v = Violation {
                    class: "buffers left behind".into(),
                    detail: format!("{} bytes per repetition", live[2] - live[1]),
                    op: 0,
                    crash: None,
                };
                return (Err(v), o);
            }
            (Ok(()), o)
        }
        "C18" => exec::run(plan, Options { memory: true, ..Options::default() }),
        "C08" => {
            alloc::set_quarantine(true);
            let r = exec::run(plan, Options::default());
            alloc::set_quarantine(false);
            r
        }
        _ => exec::run(plan, Options::default()),
    }
}

fn clean(s: &str) -> String {
    let mut t: String = s.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c }).collect();
    if t.len() > 600 {
        let mut n = 600;
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        t.truncate(n);
        t.push_str("...");
    }
    t
}

fn vline(v: &Violation) -> String {
    format!("{}\t{}\t{}\t{}", clean(&v.class), v.op, v.crash.clone().unwrap_or_default(), clean(&v.detail))
}

fn parse_vline(s: &str) -> Violation {
    let w: Vec<&str> = s.splitn(4, '\t').collect();
    let g = |i: usize| w.get(i).cloned().unwrap_or("");
    Violation {
        class: g(0).into(),
        op: g(1).parse().unwrap_or(0),
        crash: if g(2).is_empty() { None } else { Some(g(2).into()) },
        detail: g(3).into(),
    }
}

// ---- worker ----------------------------------------------------------------------------------

/// The next run to do, from the pipe all workers share: whoever is free takes one.
fn next_index() -> Option<u64> {
    let mut b = [0u8; 8];
    loop {
        let n = unsafe { libc::read(0, b.as_mut_ptr() as *mut libc::c_void, 8) };
        if n == 8 {
            return Some(u64::from_le_bytes(b));
        }
        if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
            continue;
        }
        return None;
    }
}

/// A run must be what its plan says, whatever ran before it in this process: whatever the code
/// keeps for a thread or the process ends with the child. `f` runs there and writes what it found;
/// if the child dies, so does this process, in the same way.
fn apart(f: impl FnOnce(&mut dyn Write)) -> String {
    use std::io::Read;
    use std::os::unix::io::FromRawFd;
    let mut fd = [0i32; 2];
    if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 {
        panic!("no pipe");
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        panic!("no process");
    }
    if pid == 0 {
        unsafe { libc::close(fd[0]) };
        limit_cpu(RUN_LIMIT_S);
        let mut text: Vec<u8> = vec![];
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut text))).is_err() {
            unsafe { libc::_exit(101) };
        }
        limit_cpu(0);
        let mut w = unsafe { std::fs::File::from_raw_fd(fd[1]) };
        let ok = w.write_all(&text).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 71 }) };
    }
    unsafe { libc::close(fd[1]) };
    let mut text = vec![];
    let _ = unsafe { std::fs::File::from_raw_fd(fd[0]) }.read_to_end(&mut text);
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {
        if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            break;
        }
    }
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        unsafe {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
            libc::_exit(128 + sig);
        }
    }
    if libc::WEXITSTATUS(st) != 0 {
        unsafe { libc::_exit(libc::WEXITSTATUS(st)) };
    }
    String::from_utf8_lossy(&text).to_string()
}

/// worker PROP SEED
pub fn worker(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let prop = &a[0];
    let seed: u64 = a[1].parse().unwrap();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut since = 0;
    while let Some(i) = next_index() {
        let _ = writeln!(out, "B {}", i);
        let _ = out.flush();
        let t = Instant::now();
        let text = apart(|w| {
            let p = props::generate(prop, seed, i);
            let text = p.text();
            assert!(Plan::parse(&text).as_ref() == Ok(&p), "a plan that its text does not describe");
            let _ = write!(w, "{}", text);
        });
        let mut plan = Plan::parse(&text).expect("plan");
        plan.prop = prop.clone();
        let told = apart(|w| tell(&plan, i, w));
        for line in told.lines() {
            if line.starts_with("C ") {
                let mut p = line[2..].rsplitn(2, ' ');
                let n: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let k = p.next().unwrap_or("").to_string();
                *counters.entry(k).or_insert(0) += n;
            } else if line.starts_with("E ") {
                let _ = writeln!(out, "{} {}", line, t.elapsed().as_micros());
            } else {
                let _ = writeln!(out, "{}", line);
            }
        }
        since += 1;
        if since == 20 {
            since = 0;
            flush_counters(&mut out, &mut counters);
        }
    }
    flush_counters(&mut out, &mut counters);
    let _ = writeln!(out, "D");
    let _ = out.flush();
    0
}

/// Executes a plan and writes down what came of it.
fn tell(plan: &Plan, i: u64, w: &mut dyn Write) {
    let (r, o) = execute(plan);
    let judged = ["probe:opened", "images", "probe:trees_compared", "probe:views_checked", "op:res", "op:rres"]
        .iter()
        .any(|k| o.counters.get(*k).cloned().unwrap_or(0) > 0);
    let mut outs = o.hash;
    for x in &o.images {
        outs = mix2(outs, *x);
    }
    let _ = writeln!(w, "E {} {:x} {:x} {} {} {}", i, o.hash, outs, o.steps, judged as u32, plan.ops.len());
    for (k, v) in o.counters.iter() {
        let _ = writeln!(w, "C {} {}", k, v);
    }
    for (k, v) in o.fired.iter() {
        let _ = writeln!(w, "C fault:{} {}", k, v);
    }
    if !o.images.is_empty() {
        let mut s = String::from("I");
        for x in &o.images {
            let _ = write!(s, " {:x}", x);
        }
        let _ = writeln!(w, "{}", s);
    }
    if let Err(v) = r {
        let _ = writeln!(w, "V {} {}", i, vline(&v));
    }
}

fn flush_counters(out: &mut dyn Write, c: &mut BTreeMap<String, u64>) {
    for (k, v) in c.iter() {
        let _ = writeln!(out, "C {} {}", k, v);
    }
    c.clear();
}

/// exec FILE: one plan, one line of result
pub fn exec_file(path: &str) -> i32 {
    quiet_panics();
    limit_memory();
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR {}", e);
            return 2;
        }
    };
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            println!("ERROR {}", e);
            return 2;
        }
    };
    limit_cpu(RUN_LIMIT_S);
    let (r, o) = execute(&plan);
    match r {
        Ok(()) => println!("OK {:x}", o.hash),
        Err(v) => println!("V {:x}\t{}", o.hash, vline(&v)),
    }
    if std::env::var("FLATSIM_TRACE").is_ok() {
        for (id, s) in &o.outcomes {
            println!("  {} -> {}", id, s);
        }
        println!("  fired {:?}", o.fired);
        println!("  counters {:?}", o.counters);
    }
    0
}

fn died(st: std::process::ExitStatus) -> Option<Violation> {
    let class = match (st.code(), st.signal()) {
        (Some(70), _) | (_, Some(libc::SIGPROF)) => "the run does not end".to_string(),
        (_, Some(libc::SIGSEGV)) => "the process dies: invalid memory access (SIGSEGV)".to_string(),
        (_, Some(libc::SIGBUS)) => "the process dies: access beyond the end of a file (SIGBUS)".to_string(),
        (_, Some(libc::SIGABRT)) => "the process aborts (SIGABRT)".to_string(),
        (_, Some(libc::SIGKILL)) => KILLED.to_string(),
        (_, Some(s)) => format!("the process dies: signal {}", s),
        (Some(0), _) => return None,
        (Some(c), _) => format!("the process exits with status {}", c),
        _ => "the process dies".to_string(),
    };
    Some(Violation { class, detail: String::new(), op: 0, crash: None })
}

/// Runs a plan in a process of its own.
fn in_child(plan: &Plan, scratch: &str) -> (Option<Violation>, String) {
    std::fs::write(scratch, plan.text()).expect("scratch file");
    let o = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(scratch)
        .stderr(Stdio::null())
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let line = text.lines().next().unwrap_or("").to_string();
    if line.starts_with("V ") {
        let rest = &line[2..];
        let tab = rest.find('\t').unwrap_or(0);
        return (Some(parse_vline(&rest[tab + 1..])), rest[..tab].to_string());
    }
    if line.starts_with("OK ") && o.status.success() {
        return (None, line[3..].to_string());
    }
    (died(o.status), String::new())
}

const STAGE: &str = "=== stage";

/// gen PROP SEED INDEX: prints every stage of a plan before it is executed, the last is the plan
pub fn gen(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    limit_cpu(RUN_LIMIT_S);
    exec::show_stages(|p| {
        println!("{}\n{}", STAGE, p.text());
        let _ = std::io::stdout().flush();
    });
    let p = props::generate(&a[0], a[1].parse().unwrap(), a[2].parse().unwrap());
    println!("{}\n{}", STAGE, p.text());
    0
}

/// Plans are made in a process of their own, too: placing faults executes the program.
fn plan_of(prop: &str, seed: u64, i: u64) -> Plan {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(&["gen", prop, &seed.to_string(), &i.to_string()])
        .stderr(Stdio::null())
        .output()
        .expect("child");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let last = text.rsplit(STAGE).next().unwrap_or("");
    let mut p = Plan::parse(last).unwrap_or_default();
    p.prop = prop.into();
    p
}

// ---- minimiser -------------------------------------------------------------------------------

struct Minimiser {
    class: String,
    scratch: String,
    runs: u32,
    until: Instant,
    best: Plan,
    last: Violation,
}

impl Minimiser {
    fn try_plan(&mut self, p: Plan) -> bool {
        if self.runs > 900 || Instant::now() > self.until {
            return false;
        }
        self.runs += 1;
        if let (Some(v), _) = in_child(&p, &self.scratch) {
            if v.class == self.class {
                self.best = p;
                self.last = v;
                return true;
            }
        }
        false
    }

    fn drop_ops(&mut self) -> bool {
        let mut any = false;
        let mut size = (self.best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < self.best.ops.len() {
                let mut p = self.best.clone();
                let end = (i + size).min(p.ops.len());
                p.ops.drain(i..end);
                if self.try_plan(p) {
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                return any;
            }
            size = (size / 2).max(1);
        }
    }

    fn drop_faults(&mut self) {
        for i in 0..self.best.ops.len() {
            let mut k = 0;
            while k < self.best.ops[i].faults.len() {
                let mut p = self.best.clone();
                p.ops[i].faults.remove(k);
                if !self.try_plan(p) {
                    k += 1;
                }
            }
        }
    }

    fn simplify(&mut self) {
        for i in 0..self.best.ops.len() {
            for key in &["hold", "a"] {
                let nm = self.best.ops[i].name.clone();
                if self.best.ops[i].has(key) && (nm == "close" || nm == "open") {
                    let mut p = self.best.clone();
                    p.ops[i].kv.remove(*key);
                    self.try_plan(p);
                }
            }
            if self.best.ops[i].has("n") && self.best.ops[i].name != "cap" && self.best.ops[i].name != "fdlim" {
                for _ in 0..8 {
                    let n = self.best.ops[i].u("n");
                    let mut done = true;
                    for c in &[0, 1, n / 2, n.saturating_sub(1)] {
                        if *c < n {
                            let mut p = self.best.clone();
                            p.ops[i].kv.insert("n".into(), c.to_string());
                            if self.try_plan(p) {
                                done = false;
                                break;
                            }
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
            if self.best.ops[i].has("acts") {
                loop {
                    let acts: Vec<String> = self.best.ops[i].s("acts").split(';').map(|s| s.to_string()).collect();
                    let mut done = true;
                    for k in 0..acts.len() {
                        if acts.len() == 1 {
                            break;
                        }
                        let mut a = acts.clone();
                        a.remove(k);
                        let mut p = self.best.clone();
                        p.ops[i].kv.insert("acts".into(), a.join(";"));
                        if self.try_plan(p) {
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
    }
}

fn minimise(plan: &Plan, v: &Violation, scratch: &str, secs: u64) -> (Plan, Violation, u32) {
    let mut m = Minimiser {
        class: v.class.clone(),
        scratch: scratch.into(),
        runs: 0,
        until: Instant::now() + Duration::from_secs(secs),
        best: plan.clone(),
        last: v.clone(),
    };
    if v.op > 0 {
        if let Some(i) = plan.ops.iter().position(|o| o.id == v.op) {
            let mut p = plan.clone();
            p.ops.truncate(i + 1);
            // name the crash point
            if let Some(c) = &v.crash {
                let mut w = c.split(' ');
                let at = w.next().unwrap_or("").to_string();
                let mut q = p.clone();
                q.ops[i].kv.insert("at".into(), at);
                for kv in w {
                    if let Some(e) = kv.find('=') {
                        q.ops[i].kv.insert(kv[..e].into(), kv[e + 1..].into());
                    }
                }
                if !m.try_plan(q) {
                    m.try_plan(p);
                }
            } else {
                m.try_plan(p);
            }
        }
    }
    if m.best.kv.contains_key("clock") {
        let mut p = m.best.clone();
        p.kv.remove("clock");
        m.try_plan(p);
    }
    m.drop_ops();
    m.drop_faults();
    m.simplify();
    m.drop_ops();
    m.drop_faults();
    (m.best, m.last, m.runs)
}

// ---- parent ----------------------------------------------------------------------------------

enum Msg {
    Begin(usize, u64),
    End { idx: u64, hash: u64, full: u64, steps: u64, judged: bool, us: u64 },
    Images(Vec<u64>),
    Count(String, u64),
    Viol(u64, Violation),
    Gone(usize, Option<Violation>),
}

/// A pipe with the numbers of all runs.
fn feed(runs: u64) -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        panic!("no pipe");
    }
    let (r, mut w) = unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
    std::thread::spawn(move || {
        for i in 0..runs {
            if w.write_all(&i.to_le_bytes()).is_err() {
                break;
            }
        }
    });
    r
}

fn spawn(prop: &str, seed: u64, work: &std::fs::File, w: usize, tx: mpsc::Sender<Msg>) -> std::sync::Arc<std::sync::Mutex<std::process::Child>> {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(&["worker", prop, &seed.to_string()])
        .stdin(work.try_clone().expect("pipe"))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
    let out = child.stdout.take().unwrap();
    let child = std::sync::Arc::new(std::sync::Mutex::new(child));
    let c2 = child.clone();
    std::thread::spawn(move || {
        let mut finished = false;
        for line in BufReader::new(out).lines() {
            let line = match line {
                Ok(l) => l,
                Err(_) => break,
            };
            let p: Vec<&str> = line.splitn(2, ' ').collect();
            let rest = p.get(1).cloned().unwrap_or("");
            let m = match p[0] {
                "B" => Msg::Begin(w, rest.parse().unwrap_or(0)),
                "E" => {
                    let f: Vec<&str> = rest.split(' ').collect();
                    let x = |i: usize| u64::from_str_radix(f.get(i).cloned().unwrap_or("0"), 16).unwrap_or(0);
                    let d = |i: usize| f.get(i).and_then(|s| s.parse().ok()).unwrap_or(0u64);
                    Msg::End { idx: d(0), hash: x(1), full: x(2), steps: d(3), judged: d(4) == 1, us: d(6) }
                }
                "I" => Msg::Images(rest.split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()),
                "C" => {
                    let i = rest.rfind(' ').unwrap_or(0);
                    Msg::Count(rest[..i].into(), rest[i + 1..].parse().unwrap_or(0))
                }
                "V" => {
                    let i = rest.find(' ').unwrap_or(0);
                    Msg::Viol(rest[..i].parse().unwrap_or(0), parse_vline(&rest[i + 1..]))
                }
                "D" => {
                    finished = true;
                    continue;
                }
                _ => continue,
            };
            if tx.send(m).is_err() {
                break;
            }
        }
        let st = c2.lock().unwrap().wait();
        let v = match st {
            Ok(st) if finished && st.success() => None,
            Ok(st) => Some(died(st).unwrap_or(Violation {
                class: "the process exits".into(),
                detail: String::new(),
                op: 0,
                crash: None,
            })),
            Err(_) => None,
        };
        let _ = tx.send(Msg::Gone(w, v));
    });
    child
}

pub struct Known {
    prop: String,
    what: String,
    text: String,
}

/// lines `known: property=<id> match=<part of "class | detail"> :: <what fails>`
fn known_findings(dir: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", dir)) {
        for l in t.lines() {
            if !l.starts_with("known: property=") {
                continue;
            }
            let l = &l[16..];
            if let (Some(a), Some(b)) = (l.find(" match="), l.find(" :: ")) {
                out.push(Known { prop: l[..a].into(), what: l[a + 7..b].into(), text: l[b + 4..].into() });
            }
        }
    }
    out
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

/// (runs, wall limit)
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    if let Ok(n) = std::env::var("FLATSIM_RUNS") {
        if let Ok(n) = n.parse() {
            return (n, 3600);
        }
    }
    let q = match prop {
        "C01" => 15000,
        "C02" => 1400,
        "C03" => 20000,
        "C04" => 25000,
        "C05" => 9000,
        "C06" => 50000,
        "C07" => 45000,
        "C08" => 45000,
        "C09" => 4000,
        "C10" => 45000,
        "C11" => 12000,
        "C12" => 24000,
        "C13" => 22000,
        "C18" => 20000,
        _ => 1000,
    };
    if tier == "thorough" {
        (q * 40, 780)
    } else {
        (q, 240)
    }
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "programs writing 1-3 archives with interleaved parts under short and interrupted writes, then reading them through the writing storage, fresh storages and after a simulated process death",
        "C02" => "programs writing archives while others open them, plus every (sampled) crash point of the recorded writes: prefixes, torn writes, and per-file loss of the latest writes; every resulting disk is opened and read",
        "C03" => "writing programs with injected errors, full disks and descriptor limits in creating, setting, starting, growing and finishing calls, with retries; every result is compared with the faults that fired",
        "C04" => "writing programs under different schedules, chunkings, short and interrupted writes; the whole disk tree is compared with an independent encoder",
        "C05" => "finished archives with 40-90 seeded damages each (bit flips, bytes, truncation, extension, removal, size headers, exchanged files, inserted and removed bytes)",
        "C06" => "creating again in every state of an archive (finished, being written, after a crash, with failing status calls), on other storages and next to it",
        "C07" => "opens and reads at any moment of writing, with failing open, status and mapping calls, followed by finishing and opening again through the same storage",
        "C08" => "views, slices and archives held across reads, failed reads, re-opens, writes and drops of all handles in random order, with freed memory overwritten and unmapped pages made inaccessible",
        "C09" => "parts written again 1-4 times after completed, failed, abandoned and crashed attempts, observed through storages that had read earlier versions",
        "C10" => "writers dropped open, while unwinding, and after failed calls, in between other parts' writes, with injected errors",
        "C11" => "archives with optional parts absent, unfinished, damaged, failed while writing or unreadable while opening",
        "C12" => "the same program on disk and in memory, every outcome compared and both compared with the model; disk writes chopped up",
        "C13" => "programs with failures and retries; descriptors compared with open writers after every operation, mappings after everything is dropped, allocator balance over repetitions",
        "C18" => "rounds of opening, failing creation, failed and abandoned writing and queries, repeated 6-12 times on the same storages with the same faults, memory, mappings and handles compared between rounds; and streams of 0.5-1.5 GiB into sparse simulated files with the memory of the library bounded after every call",
        _ => "",
    };
    format!(
        "Each evaluation is one simulated execution: a plan drawn from (seed, property, index): {}. Non-trivial: at least one judged observation was made; distinct: the hash over all system calls, their data, and all outcomes differs.",
        what
    )
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn check(a: &[String]) -> i32 {
    let prop = a.get(0).cloned().unwrap_or_default();
    if !props::CLAIMED.contains(&&prop[..]) {
        eprintln!("unknown property {}", prop);
        return 2;
    }
    let tier = a
        .get(1)
        .cloned()
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = verif_dir();
    let t0 = Instant::now();
    let (runs, limit) = budget(&prop, &tier);
    let num = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let workers = num("FLATSIM_WORKERS").unwrap_or(8) as usize;
    let known = known_findings(&dir);
    let scratch = std::env::temp_dir().join(format!("flatsim-{}.plan", std::process::id()));
    let scratch_file = scratch.to_string_lossy().to_string();
    let work = feed(runs);
    let (tx, rx) = mpsc::channel();
    let mut kids = vec![];
    let mut cur: Vec<Option<u64>> = vec![None; workers];
    let mut alive = 0;
    for w in 0..workers {
        kids.push(spawn(&prop, seed, &work, w, tx.clone()));
        alive += 1;
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut images: HashSet<u64> = HashSet::new();
    let mut hashes: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut evals, mut judged_n, mut steps, mut busy_us) = (0u64, 0u64, 0u64, 0u64);
    let mut found: Vec<(u64, Violation)> = vec![];
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut capped = false;
    let all = std::env::var("FLATSIM_ALL").is_ok();
    while alive > 0 {
        let m = match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(m) => Some(m),
            Err(_) => None,
        };
        let mut fresh: Option<(u64, Violation)> = None;
        match m {
            None => {}
            Some(Msg::Begin(w, i)) => cur[w] = Some(i),
            Some(Msg::End { idx, hash, full, steps: s, judged, us }) => {
                evals += 1;
                steps += s;
                busy_us += us;
                if us > 5_000_000 && std::env::var("FLATSIM_SLOW").is_ok() {
                    println!("run {} took {} s", idx, us / 1_000_000);
                }
                if judged {
                    judged_n += 1;
                    traces.insert(full);
                }
                if hashes.len() < 4000 {
                    hashes.insert(idx, hash);
                }
            }
            Some(Msg::Images(v)) => images.extend(v),
            Some(Msg::Count(k, n)) => *counters.entry(k).or_insert(0) += n,
            Some(Msg::Viol(i, v)) => fresh = Some((i, v)),
            Some(Msg::Gone(w, v)) => {
                alive -= 1;
                if let Some(v) = v {
                    if !capped && (found.is_empty() || all) {
                        let i = cur[w].unwrap_or(w as u64);
                        // killed from outside (out of memory, say): nothing the code did, unless
                        // it happens again
                        if v.class != KILLED || in_child(&plan_of(&prop, seed, i), &scratch_file).0.is_some() {
                            fresh = Some((i, v));
                        }
                        // and on with the rest
                        kids[w] = spawn(&prop, seed, &work, w, tx.clone());
                        alive += 1;
                    }
                }
            }
        }
        if let Some((i, v)) = fresh {
            let s = format!("{} | {}", v.class, v.detail);
            match known.iter().find(|k| k.prop == prop && s.contains(&k.what)) {
                Some(k) => {
                    known_seen.insert(k.text.clone());
                }
                None => {
                    found.push((i, v));
                    if !all {
                        for k in &kids {
                            let _ = k.lock().map(|mut c| c.kill());
                        }
                    }
                }
            }
        }
        if !capped && t0.elapsed() > Duration::from_secs(limit) {
            capped = true;
            for k in &kids {
                let _ = k.lock().map(|mut c| c.kill());
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();

    // the same seed again, in a fresh process, must give the same execution
    let mut audited = 0;
    let mut diverged = 0;
    if found.is_empty() {
        let keys: Vec<u64> = hashes.keys().cloned().collect();
        let step = (keys.len() / 12).max(1);
        for i in keys.iter().step_by(step).take(12) {
            let p = plan_of(&prop, seed, *i);
            let (_, h) = in_child(&p, &scratch_file);
            audited += 1;
            if h != format!("{:x}", hashes[i]) {
                diverged += 1;
            }
        }
    }

    let mut code = 0;
    let mut lines: Vec<String> = vec![];
    if all {
        let mut classes: BTreeMap<String, (u64, String, u32)> = BTreeMap::new();
        for (i, v) in &found {
            let e = classes.entry(v.class.clone()).or_insert((*i, v.detail.clone(), 0));
            e.2 += 1;
        }
        for (c, (i, d, n)) in classes {
            println!("{:6} x {}   (index {}: {})", n, c, i, d.chars().take(300).collect::<String>());
        }
    }
    if !found.is_empty() {
        found.sort_by_key(|f| f.0);
        let (idx, v) = found[0].clone();
        let plan = plan_of(&prop, seed, idx);
        let (v0, _) = in_child(&plan, &scratch_file);
        let v = v0.unwrap_or(v);
        let secs = num("FLATSIM_MINIMISE").unwrap_or(if tier == "thorough" { 120 } else { 40 });
        let (min, vmin, tries) = minimise(&plan, &v, &scratch_file, secs);
        let rdir = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{}-{}.plan", rdir, prop, seed, idx);
        let mut text = String::new();
        let _ = writeln!(text, "# violation of {}: {}", prop, vmin.class);
        let _ = writeln!(text, "# {}", vmin.detail);
        let _ = writeln!(text, "# seed {} index {}; {} of {} operations left after {} minimising runs", seed, idx, min.ops.len(), plan.ops.len(), tries);
        let _ = writeln!(text, "# replay: ./check.sh replay {}", path);
        text.push_str(&min.text());
        let _ = std::fs::write(&path, text);
        let (again, _) = in_child(&min, &scratch_file);
        lines.push(format!("{}: {} -- {}", prop, vmin.class, vmin.detail));
        lines.push(format!(
            "replayed in a fresh process: {}",
            if again.map_or(false, |x| x.class == vmin.class) { "same violation" } else { "NOT reproduced" }
        ));
        lines.push(format!("VIOLATION property={} replay={}", prop, path));
        code = 1;
    }
    for k in &known_seen {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    let _ = std::fs::remove_file(&scratch);

    // evidence
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &counters {
        if k.starts_with("fault:") {
            faults.insert(k[6..].into(), *v);
        } else if k.starts_with("op:") {
            ops.insert(k[3..].into(), *v);
        } else if !k.starts_with("clock:") {
            probes.insert(k.clone(), *v);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<String> = (0..2u64)
        .map(|i| {
            let p = plan_of(&prop, seed, i * 3);
            let t: Vec<String> = p.text().lines().take(40).map(|s| s.to_string()).collect();
            js(&t.join("\n"))
        })
        .collect();
    let get = |k: &str| counters.get(k).cloned().unwrap_or(0);
    let mut e = String::new();
    let _ = writeln!(e, "{{");
    let _ = writeln!(e, "  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", js(&prop), js(&tier), seed);
    let _ = writeln!(e, "  \"coverage\": {{");
    let _ = writeln!(e, "    \"evaluations\": {},", evals);
    let _ = writeln!(e, "    \"distinct_nontrivial\": {},", traces.len());
    let _ = writeln!(e, "    \"rule\": {},", js(&rule(&prop)));
    let _ = writeln!(e, "    \"nontrivial_runs\": {},", judged_n);
    let _ = writeln!(e, "    \"runs_planned\": {}, \"stopped_by_time_limit\": {},", runs, capped);
    let _ = writeln!(e, "    \"simulated_runs_per_hour\": {:.0}, \"seeds_per_hour\": {:.0},", evals as f64 / explore_s * 3600.0, evals as f64 / explore_s * 3600.0);
    let _ = writeln!(e, "    \"simulated_time\": \"{} days on the simulated clock, which half of the runs let jump; read {} times: the system asks for no time, logical time is the {} simulated system calls\", \"simulated_system_calls\": {},", get("clock:seconds") / 86400, get("clock:reads"), steps, steps);
    let _ = writeln!(e, "    \"cpu_seconds_in_runs\": {:.1},", busy_us as f64 / 1e6);
    let _ = writeln!(e, "    \"distinct_disk_states_inspected\": {},", images.len());
    let _ = writeln!(e, "    \"faults_injected\": {},", jmap(&faults));
    let _ = writeln!(e, "    \"operations\": {},", jmap(&ops));
    let _ = writeln!(e, "    \"observations\": {},", jmap(&probes));
    let _ = writeln!(e, "    \"determinism_audit\": {{\"replayed_in_fresh_process\": {}, \"diverged\": {}}},", audited, diverged);
    let _ = writeln!(e, "    \"real_components\": [\"all of flatdata (storage traits, file and memory storage, archives, builders, vectors, multivectors, bit readers and writers)\", \"std::fs\", \"memmap\"],");
    let _ = writeln!(e, "    \"simulated_components\": [\"the operating system's file calls (open, read, write, seek, truncate, stat, mkdir, rename, unlink, mmap, munmap)\", \"heap allocator bookkeeping\"],");
    let _ = writeln!(e, "    \"samples\": [{}]", samples.join(", "));
    let _ = writeln!(e, "  }},");
    let _ = writeln!(e, "  \"assumptions\": [\"the simulated file system gives POSIX semantics for the calls used\", \"seeded sampling: absence of violations is evidence, not proof\"],");
    let _ = writeln!(e, "  \"wall_s\": {:.2},", wall);
    let _ = writeln!(e, "  \"violations\": {}", found.len());
    let _ = writeln!(e, "}}");
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(x) = std::fs::write(format!("{}/evidence/{}.json", dir, prop), e) {
        eprintln!("cannot write evidence: {}", x);
        return 2;
    }
    println!(
        "{} {} seed {}: {} runs, {} distinct, {} disk states, {} system calls, {} faults, {:.1} s{}",
        prop,
        tier,
        seed,
        evals,
        traces.len(),
        images.len(),
        steps,
        faults.values().sum::<u64>(),
        wall,
        if capped { " (time limit)" } else { "" }
    );
    for l in lines {
        println!("{}", l);
    }
    code
}

/// replay FILE: exactly that execution; 1 if it violates the property
pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let scratch = std::env::temp_dir().join(format!("flatsim-{}.plan", std::process::id()));
    let s = scratch.to_string_lossy().to_string();
    let (v, h) = in_child(&plan, &s);
    let _ = std::fs::remove_file(&scratch);
    match v {
        None => {
            println!("no violation (execution {})", h);
            0
        }
        Some(v) => {
            println!("{} (operation {}): {}", v.class, v.op, v.detail);
            println!("VIOLATION property={} replay={}", plan.prop, path);
            1
        }
    }
}
