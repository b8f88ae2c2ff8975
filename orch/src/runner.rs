//! Search: baseline run, then seeded fault runs; minimisation; replay files; evidence.
use crate::base::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Viol {
    /// short class, kept fixed while minimising
    pub kind: String,
    pub msg: String,
}
pub type Chk = Result<(), Viol>;
pub fn bad<T>(kind: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { kind: kind.into(), msg: msg.into() })
}

/// What happens to a run beyond its workload.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Mods {
    pub faults: Vec<FaultSpec>,
    pub sigs: Vec<(u64, i32)>,
    pub jumpseq: Vec<(u64, i64)>,
    pub sigat: Vec<(i64, i32)>,
    pub knobs: BTreeMap<&'static str, i64>,
    pub reseed: Option<u64>,
    pub sched: Option<Vec<(u64, i32)>>,
    /// entries or steps of a session moved in time
    pub extra: Vec<i64>,
}
impl Mods {
    pub fn apply(&self, s: &mut Scen) {
        s.faults.extend(self.faults.iter().cloned());
        s.sigs.extend(self.sigs.iter().cloned());
        s.jumpseq.extend(self.jumpseq.iter().cloned());
        s.sigat.extend(self.sigat.iter().cloned());
        for (k, v) in &self.knobs {
            s.knobs.insert(k, *v);
        }
        if let Some(x) = self.reseed {
            s.seed = x;
        }
        if let Some(x) = &self.sched {
            s.sched = Some(x.clone());
        }
    }
    pub fn size(&self) -> usize {
        self.faults.len() + self.sigs.len() + self.jumpseq.len() + self.sigat.len() + self.knobs.len() + self.sched.as_ref().map_or(0, |x| x.len())
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for f in &self.faults {
            let _ = match f.kind {
                FaultKind::Errno(e) => writeln!(o, "fault {} errno {}", f.seq, e),
                FaultKind::Short(n) => writeln!(o, "fault {} short {}", f.seq, n),
                FaultKind::Kill => writeln!(o, "fault {} kill 0", f.seq),
            };
        }
        for (a, b) in &self.sigs {
            let _ = writeln!(o, "sig {} {}", a, b);
        }
        for (a, b) in &self.jumpseq {
            let _ = writeln!(o, "jumpseq {} {}", a, b);
        }
        for (a, b) in &self.sigat {
            let _ = writeln!(o, "sigat {} {}", a, b);
        }
        for (k, v) in &self.knobs {
            let _ = writeln!(o, "knob {} {}", k, v);
        }
        if let Some(r) = self.reseed {
            let _ = writeln!(o, "reseed {}", r);
        }
        if let Some(v) = &self.sched {
            let _ = writeln!(o, "explicit_sched");
            for (a, b) in v {
                let _ = writeln!(o, "sched {} {}", a, b);
            }
        }
        for x in &self.extra {
            let _ = writeln!(o, "extra {}", x);
        }
        o
    }
    pub fn parse_line(&mut self, l: &str) -> bool {
        let w: Vec<&str> = l.split(' ').collect();
        let g = |i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
        match w[0] {
            "fault" => {
                let kind = match w[2] {
                    "errno" => FaultKind::Errno(g(3)),
                    "short" => FaultKind::Short(g(3)),
                    _ => FaultKind::Kill,
                };
                self.faults.push(FaultSpec { seq: g(1) as u64, kind });
            }
            "sig" => self.sigs.push((g(1) as u64, g(2) as i32)),
            "jumpseq" => self.jumpseq.push((g(1) as u64, g(2))),
            "sigat" => self.sigat.push((g(1), g(2) as i32)),
            "knob" => {
                self.knobs.insert(Box::leak(w[1].to_string().into_boxed_str()), g(2));
            }
            "reseed" => self.reseed = w[1].parse().ok(),
            "explicit_sched" => {
                self.sched.get_or_insert(vec![]);
            }
            "sched" => self.sched.get_or_insert(vec![]).push((g(1) as u64, g(2) as i32)),
            "extra" => self.extra.push(g(1)),
            _ => return false,
        }
        true
    }
}

#[derive(Clone, Debug)]
pub struct Point {
    pub seq: u64,
    pub cls: i32,
    pub name: String,
    pub path: String,
    pub op: usize,
    pub ret: i64,
}
pub trait Case {
    fn nops(&self) -> usize;
    fn scen(&self, keep: &[bool], mods: &Mods) -> Scen;
    fn check(&self, keep: &[bool], mods: &Mods, t: &Trace) -> Chk;
    /// fault runs to try after the fault-free run produced `t`
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods>;
    /// printed in evidence samples and replay files
    fn describe(&self, keep: &[bool]) -> String;
}

/// the case that shows a recorded finding
pub const PROBE: u64 = 1;
pub const C_OPEN: i32 = 1;
pub const C_READ: i32 = 2;
pub const C_WRITE: i32 = 3;
pub const C_STAT: i32 = 4;
pub const C_META: i32 = 5;
pub const C_DIR: i32 = 6;
pub const C_SPAWN: i32 = 7;
pub const C_WAIT: i32 = 8;
pub const C_SLEEP: i32 = 9;
pub const C_PIPE: i32 = 10;
pub const C_TTYCTL: i32 = 11;
pub const C_CHDIR: i32 = 12;
pub const C_COPY: i32 = 13;
pub const C_RAND: i32 = 14;
pub const C_THREAD: i32 = 16;
pub const C_RENAME: i32 = 17;
pub const C_SYNC: i32 = 18;
pub const EINTR: i64 = 4;
pub const EIO: i64 = 5;
pub const ENOMEM: i64 = 12;
pub const EACCES: i64 = 13;
pub const ENOSPC: i64 = 28;

/// Errors a call of this class may report on a real system (the simulator refuses any other).
pub fn legal_errs(cls: i32, path: &str) -> Vec<i64> {
    match cls {
        C_OPEN => {
            // error codes that only a creating or writing open can give
            let fl = path.rsplit('|').next().and_then(|x| i64::from_str_radix(x, 8).ok()).unwrap_or(0);
            let mut v = vec![EIO, ENOMEM, 24, 23, EACCES, EINTR];
            if fl & 0o100 != 0 {
                v.extend([ENOSPC, 122, 30]);
            }
            v
        }
        C_READ => vec![EIO, EINTR],
        C_WRITE => vec![ENOSPC, EIO, 122, EINTR],
        C_STAT => vec![EIO, ENOMEM, EACCES],
        C_META => vec![EIO, 30, ENOMEM, ENOSPC, 16],
        C_RENAME => vec![EIO, 18, ENOSPC, 30, 16],
        C_DIR => vec![EIO, ENOMEM, 24],
        C_SPAWN => vec![11, ENOMEM, EIO],
        C_PIPE => vec![24, 23],
        C_WAIT | C_SLEEP | C_RAND => vec![EINTR],
        C_CHDIR => vec![EIO, ENOMEM, EACCES],
        C_COPY => vec![EIO, ENOSPC, 122],
        C_TTYCTL => vec![EIO],
        C_THREAD => vec![11],
        C_SYNC => vec![EIO, ENOSPC],
        _ => vec![],
    }
}

/// Points after the mark "@@0" (or all of them when there is none), with the op they fall in.
pub fn points(t: &Trace) -> Vec<Point> {
    let mut op = 0;
    let mut v = vec![];
    let has = t.snaps.iter().any(|s| s.why == "mark");
    let mut seen = !has;
    for e in &t.evs {
        match e {
            Ev::Mark(i) if t.snaps[*i].why == "mark" => {
                if seen {
                    op += 1;
                }
                seen = true;
            }
            Ev::Sys { seq, cls, name, path, ret, .. } if seen => v.push(Point { seq: *seq, cls: *cls, name: name.clone(), path: path.clone(), op, ret: *ret }),
            _ => (),
        }
    }
    v
}
pub fn fault(seq: u64, kind: FaultKind) -> Mods {
    Mods { faults: vec![FaultSpec { seq, kind }], ..Default::default() }
}
/// Environment noise that must never change an outcome: interrupted calls, short transfers.
pub fn soft(r: &mut Rng) -> Mods {
    let mut m = Mods::default();
    m.knobs.insert("frate", *r.pick(&[20000, 60000, 200000]));
    m.knobs.insert("fmask", 1);
    if r.chance(1, 2) {
        m.knobs.insert("fshort", *r.pick(&[100, 400, 900]));
    }
    if r.chance(1, 2) {
        m.knobs.insert("chunk", *r.pick(&[1, 2]));
    }
    if r.chance(1, 2) {
        m.knobs.insert("stick", *r.pick(&[0, 200, 800]));
    }
    m.reseed = Some(r.next() >> 1);
    m
}
/// errors the run was really given (EINTR excluded) in a range of events
pub fn hard_in(t: &Trace, from: usize, to: usize) -> bool {
    t.evs[from..to].iter().any(|e| match e {
        Ev::Fault { kind, val, .. } => kind == "errno" && *val != EINTR,
        Ev::Sys { err, cls, .. } => (*err == ENOSPC || *err == 24) && *cls != 0,
        _ => false,
    })
}
/// whether a call of this class was refused in a range of events
pub fn hard_cls(t: &Trace, from: usize, to: usize, cls: i32) -> bool {
    (from..to).any(|i| match &t.evs[i] {
        Ev::Fault { seq, kind, val, .. } if kind == "errno" && *val != EINTR => t.evs[i..].iter().any(|e| matches!(e, Ev::Sys { seq: s, cls: c, .. } if s == seq && *c == cls)),
        _ => false,
    })
}

// ------------------------------------------------------------------ driver
pub struct Job<'a> {
    pub id: &'a str,
    pub env: &'a Env,
    pub seed: u64,
    pub thorough: bool,
    pub cases: usize,
    pub budget: usize,
    pub wall: f64,
    pub make: &'a (dyn Fn(&str, u64, bool) -> Box<dyn Case> + Sync),
}
#[derive(Default)]
struct Stat {
    runs: u64,
    fault_runs: u64,
    base_runs: u64,
    det_checked: u64,
    det_bad: u64,
    simns: u128,
    seqs: u64,
    hows: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    cases: HashSet<u64>,
    states: HashSet<u64>,
    ilvs: HashSet<u64>,
    sites: BTreeMap<String, u64>,
    samples: Vec<String>,
    nontrivial: u64,
    unsim: BTreeMap<String, u64>,
    ncases: u64,
    known: BTreeMap<String, u64>,
    faulthit: u64,
}
fn errname(e: i64) -> String {
    match e {
        4 => "EINTR".into(),
        5 => "EIO".into(),
        11 => "EAGAIN".into(),
        12 => "ENOMEM".into(),
        13 => "EACCES".into(),
        16 => "EBUSY".into(),
        18 => "EXDEV".into(),
        23 => "ENFILE".into(),
        24 => "EMFILE".into(),
        28 => "ENOSPC".into(),
        30 => "EROFS".into(),
        122 => "EDQUOT".into(),
        x => format!("errno{}", x),
    }
}
fn tally(s: &mut Stat, t: &Trace, base: bool) {
    s.runs += 1;
    if base {
        s.base_runs += 1
    } else {
        s.fault_runs += 1
    }
    s.simns += t.now as u128;
    s.seqs += t.nseq;
    *s.hows.entry(t.how.clone()).or_default() += 1;
    let mut hit = false;
    for e in &t.evs {
        match e {
            Ev::Fault { kind, val, name, .. } => {
                hit = true;
                let k = if kind == "errno" { errname(*val) } else { kind.clone() };
                *s.faults.entry(k).or_default() += 1;
                *s.sites.entry(name.clone()).or_default() += 1;
            }
            Ev::Sig(l) if l.starts_with("K ") => {
                hit = true;
                *s.faults.entry(format!("signal {}", l.split(' ').nth(1).unwrap_or("?"))).or_default() += 1
            }
            Ev::Tty(_) => {
                hit = true;
                *s.faults.entry("clock jump".into()).or_default() += 1
            }
            Ev::Actor(_) => *s.faults.entry("concurrent change by another process".into()).or_default() += 1,
            _ => (),
        }
    }
    if hit {
        s.faulthit += 1;
    }
    s.ilvs.insert(t.ilv);
    for sn in &t.snaps {
        let mut h = 7u64;
        for (p, (n, _)) in &sn.nodes {
            h = h.wrapping_mul(1099511628211) ^ hash64(p);
            h = h.wrapping_mul(31).wrapping_add(match n {
                Node::Dir => 1,
                Node::File(v) => hash64(t.bytes(*v)),
                Node::Link(x) => hash64(x),
                Node::Other => 2,
            });
        }
        s.states.insert(h);
    }
    for u in &t.unsim {
        *s.unsim.entry(u.clone()).or_default() += 1;
    }
}

pub fn one(env: &Env, c: &dyn Case, keep: &[bool], m: &Mods) -> (String, Trace, Chk) {
    let mut s = c.scen(keep, m);
    m.apply(&mut s);
    let raw = run_raw(env, &s);
    let t = Trace::parse(&raw);
    let r = sane(&t).and_then(|_| c.check(keep, m, &t));
    (raw, t, r)
}
/// Conditions under which a run says nothing (the simulator met something it does not model).
fn sane(t: &Trace) -> Chk {
    if t.how == "tracefull" || t.how == "escape" || t.how == "spawnfail" {
        return bad("!harness", format!("run ended with {} {}", t.how, t.code));
    }
    if t.snaps.is_empty() {
        return bad("!harness", "no trace");
    }
    if t.how == "died" && t.code.contains("\"9\"") {
        return bad("!harness", "watchdog");
    }
    Ok(())
}

pub fn search(j: &Job) -> i32 {
    let t0 = Instant::now();
    let stat = Mutex::new(Stat::default());
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(usize, u64, Mods, Viol)>> = Mutex::new(None);
    let harness: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let known = load_known(j.id);
    let nw: usize = std::env::var("ORCH_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::thread::scope(|sc| {
        for _ in 0..nw {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= j.cases || stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > j.wall {
                    break;
                }
                // the first workload shows a recorded finding, where there is one
                let cs = if i == 0 && crate::has_probe(j.id) { PROBE } else { hash64(format!("{}/{}/{}", j.seed, j.id, i).as_bytes()) >> 1 };
                let c = (j.make)(j.id, cs, j.thorough);
                let keep = vec![true; c.nops()];
                let m0 = Mods::default();
                let (raw, t, r) = one(j.env, &*c, &keep, &m0);
                {
                    let mut s = stat.lock().unwrap();
                    s.ncases += 1;
                    if c.nops() > 1 {
                        s.cases.insert(hash64(c.describe(&keep).as_bytes()));
                        s.nontrivial += 1;
                    }
                    if s.samples.len() < 3 {
                        let d = c.describe(&keep);
                        s.samples.push(d.chars().take(1500).collect());
                    }
                    tally(&mut s, &t, true);
                }
                let report = |m: &Mods, v: Viol| -> bool {
                    if v.kind.starts_with('!') {
                        if std::env::var("ORCH_HARN").is_ok() {
                            println!("HARNESS case {} {}\n{}\n{}", cs, v.msg, m.text(), c.describe(&keep));
                        }
                        *harness.lock().unwrap().entry(format!("{} {}", v.kind, v.msg)).or_default() += 1;
                        return false;
                    }
                    if let Some(k) = known.iter().find(|k| v.kind == k.0 && v.msg.contains(&k.1)) {
                        *stat.lock().unwrap().known.entry(k.2.clone()).or_default() += 1;
                        return false;
                    }
                    // a violation counts only when its execution repeats exactly
                    let (r1, _, v1) = one(j.env, &*c, &keep, m);
                    let (r2, _, _) = one(j.env, &*c, &keep, m);
                    if r1 != r2 || !matches!(&v1, Err(x) if x.kind == v.kind) {
                        *harness.lock().unwrap().entry(format!("unrepeatable {} {}", v.kind, v.msg)).or_default() += 1;
                        return false;
                    }
                    let mut f = found.lock().unwrap();
                    if f.as_ref().map_or(true, |x| i < x.0) {
                        *f = Some((i, cs, m.clone(), v));
                    }
                    stop.store(true, Ordering::SeqCst);
                    true
                };
                if i % 8 == 0 {
                    let mut s = c.scen(&keep, &m0);
                    m0.apply(&mut s);
                    let again = run_raw(j.env, &s);
                    let mut st = stat.lock().unwrap();
                    st.det_checked += 1;
                    if again != raw {
                        st.det_bad += 1;
                        let _ = std::fs::create_dir_all("/verif/evidence/nondet");
                        let _ = std::fs::write(format!("/verif/evidence/nondet/{}-{}-a.txt", j.id, i), &raw);
                        let _ = std::fs::write(format!("/verif/evidence/nondet/{}-{}-b.txt", j.id, i), &again);
                    }
                }
                if let Err(v) = r {
                    report(&m0, v);
                    continue;
                }
                let mut pr = Rng::new(cs ^ 0xfa417);
                let plans = c.plan(&mut pr, &t, j.budget);
                for (k, m) in plans.iter().enumerate() {
                    if stop.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > j.wall {
                        break;
                    }
                    let (raw, t, r) = one(j.env, &*c, &keep, m);
                    tally(&mut stat.lock().unwrap(), &t, false);
                    if (i + k) % 40 == 0 {
                        let (raw2, _, _) = one(j.env, &*c, &keep, m);
                        let mut st = stat.lock().unwrap();
                        st.det_checked += 1;
                        if raw2 != raw {
                            st.det_bad += 1;
                            let _ = std::fs::create_dir_all("/verif/evidence/nondet");
                            let _ = std::fs::write(format!("/verif/evidence/nondet/{}-{}-{}-a.txt", j.id, i, k), &raw);
                            let _ = std::fs::write(format!("/verif/evidence/nondet/{}-{}-{}-b.txt", j.id, i, k), &raw2);
                        }
                    }
                    if let Err(v) = r {
                        if report(m, v) {
                            break;
                        }
                    }
                }
            }).unwrap();
        }
    });
    let st = stat.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((i, cs, m, v)) = found.into_inner().unwrap() {
        let c = (j.make)(j.id, cs, j.thorough);
        let keep = vec![true; c.nops()];
        match one(j.env, &*c, &keep, &m).2 {
            Err(v1) if v1.kind == v.kind => {
                let (keep, m, v) = minimise(j, &*c, keep, m, v1);
                let path = write_replay(j, &*c, cs, &keep, &m, &v);
                println!("property {} case {} (seed {}): {}: {}", j.id, i, cs, v.kind, v.msg);
                println!("{}", c.describe(&keep));
                print!("{}", m.text());
                println!("VIOLATION property={} replay={}", j.id, path);
                code = 1;
                nviol = 1;
            }
            _ => {
                println!("unrepeatable observation in case {} of {} ignored: {} {}", i, j.id, v.kind, v.msg);
            }
        }
    }
    for (k, n) in &st.known {
        println!("KNOWN-FINDING: property={} {} ({} runs)", j.id, k, n);
    }
    let h = harness.into_inner().unwrap();
    for (k, n) in &h {
        println!("harness: {} x{}", k, n);
    }
    evidence(j, &st, search_s, t0.elapsed().as_secs_f64(), nviol, &h);
    println!(
        "{}: {} cases, {} runs ({} with a fault or signal delivered), {:.1} s, {:.0} runs/s, determinism {}/{} identical",
        j.id, st.ncases, st.runs, st.faulthit, search_s, st.runs as f64 / search_s, st.det_checked - st.det_bad, st.det_checked
    );
    code
}

fn minimise(j: &Job, c: &dyn Case, keep0: Vec<bool>, m0: Mods, v0: Viol) -> (Vec<bool>, Mods, Viol) {
    let t0 = Instant::now();
    let (mut keep, mut m, mut v) = (keep0, m0, v0);
    let lim = 40.0;
    let same = |k: &[bool], m: &Mods| -> Option<(Viol, Trace)> {
        let (_, t, r) = one(j.env, c, k, m);
        match r {
            Err(x) if x.kind == v.kind => Some((x, t)),
            _ => None,
        }
    };
    // 1. faults and noise away, one at a time
    let shrink_mods = |m: &mut Mods, keep: &[bool], v: &mut Viol| {
        loop {
            let mut cands: Vec<Mods> = vec![];
            for i in 0..m.faults.len() {
                let mut x = m.clone();
                x.faults.remove(i);
                cands.push(x);
            }
            for i in 0..m.sigs.len() {
                let mut x = m.clone();
                x.sigs.remove(i);
                cands.push(x);
            }
            for i in 0..m.sigat.len() {
                let mut x = m.clone();
                x.sigat.remove(i);
                cands.push(x);
            }
            for i in 0..m.jumpseq.len() {
                let mut x = m.clone();
                x.jumpseq.remove(i);
                cands.push(x);
            }
            for k in m.knobs.keys().cloned().collect::<Vec<_>>() {
                let mut x = m.clone();
                x.knobs.remove(k);
                cands.push(x);
            }
            let mut hit = false;
            for x in cands {
                if t0.elapsed().as_secs_f64() > lim {
                    return;
                }
                if let Some((nv, _)) = same(keep, &x) {
                    *m = x;
                    *v = nv;
                    hit = true;
                    break;
                }
            }
            if !hit {
                return;
            }
        }
    };
    let mut nv = v.clone();
    shrink_mods(&mut m, &keep, &mut nv);
    // random soft noise becomes explicit faults
    if m.knobs.contains_key("frate") {
        if let Some((_, t)) = same(&keep, &m) {
            let mut x = m.clone();
            x.knobs.remove("frate");
            x.knobs.remove("fmask");
            for e in &t.evs {
                if let Ev::Fault { seq, kind, val, .. } = e {
                    if m.faults.iter().any(|f| f.seq == *seq) {
                        continue;
                    }
                    x.faults.push(FaultSpec { seq: *seq, kind: if kind == "errno" { FaultKind::Errno(*val) } else { FaultKind::Short(*val) } });
                }
            }
            if let Some((w, _)) = same(&keep, &x) {
                m = x;
                nv = w;
                // halve while possible
                loop {
                    let n = m.faults.len();
                    let mut hit = false;
                    let mut sz = n / 2;
                    while sz >= 1 && !hit {
                        let mut i = 0;
                        while i < n {
                            let mut y = m.clone();
                            y.faults.drain(i..(i + sz).min(n));
                            if t0.elapsed().as_secs_f64() > lim {
                                break;
                            }
                            if let Some((w, _)) = same(&keep, &y) {
                                m = y;
                                nv = w;
                                hit = true;
                                break;
                            }
                            i += sz;
                        }
                        sz /= 2;
                    }
                    if !hit {
                        break;
                    }
                }
            }
        }
    }
    // 2. operations away; faults stay at the same call of the same operation
    let n = keep.len();
    let mut sz = (n / 2).max(1);
    loop {
        let mut i = 0;
        while i < n {
            if t0.elapsed().as_secs_f64() > lim {
                break;
            }
            let mut k2 = keep.clone();
            let mut ch = false;
            for x in k2.iter_mut().skip(i).take(sz) {
                if *x {
                    *x = false;
                    ch = true;
                }
            }
            i += sz;
            if !ch || !k2.iter().any(|x| *x) {
                continue;
            }
            let mut tries = vec![m.clone()];
            if !m.faults.is_empty() || !m.sigs.is_empty() || !m.jumpseq.is_empty() {
                if let Some(x) = reanchor(j, c, &keep, &k2, &m) {
                    tries.insert(0, x);
                }
            }
            for x in tries {
                if let Some((w, _)) = same(&k2, &x) {
                    keep = k2.clone();
                    m = x;
                    nv = w;
                    break;
                }
            }
        }
        if sz == 1 || t0.elapsed().as_secs_f64() > lim {
            break;
        }
        sz /= 2;
    }
    shrink_mods(&mut m, &keep, &mut nv);
    // 3. scheduling decisions away
    if let Some((_, t)) = same(&keep, &m) {
        if !t.decisions.is_empty() && m.sched.is_none() {
            let mut x = m.clone();
            x.sched = Some(t.decisions.clone());
            let mut ok = same(&keep, &x).is_some();
            if ok {
                let mut y = x.clone();
                y.sched = Some(vec![]);
                if let Some((w, _)) = same(&keep, &y) {
                    x = y;
                    nv = w;
                    ok = true;
                }
                loop {
                    let d = x.sched.clone().unwrap();
                    let mut hit = false;
                    let mut sz = (d.len() / 2).max(1);
                    while !d.is_empty() && sz >= 1 && !hit && t0.elapsed().as_secs_f64() < lim + 15.0 {
                        let mut i = 0;
                        while i < d.len() && t0.elapsed().as_secs_f64() < lim + 15.0 {
                            let mut e = d.clone();
                            e.drain(i..(i + sz).min(d.len()));
                            let mut y = x.clone();
                            y.sched = Some(e);
                            if let Some((w, _)) = same(&keep, &y) {
                                x = y;
                                nv = w;
                                hit = true;
                                break;
                            }
                            i += sz;
                        }
                        sz /= 2;
                    }
                    if !hit {
                        break;
                    }
                }
                if ok {
                    m = x;
                }
            }
        }
    }
    let (_, _, fin) = one(j.env, c, &keep, &m);
    if let Err(x) = fin {
        v = x;
    } else {
        v = nv;
    }
    (keep, m, v)
}
/// moves faults to the same call of the same kept operation after other operations were dropped
fn reanchor(j: &Job, c: &dyn Case, keep: &[bool], k2: &[bool], m: &Mods) -> Option<Mods> {
    let free = Mods { faults: vec![], sigs: vec![], jumpseq: vec![], ..m.clone() };
    let idx = |k: &[bool]| -> Vec<usize> { (0..k.len()).filter(|i| k[*i]).collect() };
    let (ia, ib) = (idx(keep), idx(k2));
    let (_, ta, _) = one(j.env, c, keep, &free);
    let (_, tb, _) = one(j.env, c, k2, &free);
    let (pa, pb) = (points(&ta), points(&tb));
    let first = |p: &[Point], op: usize| p.iter().find(|x| x.op == op).map(|x| x.seq);
    let map = |s: u64| -> Option<u64> {
        let op = pa.iter().take_while(|x| x.seq <= s).last()?.op;
        let orig = *ia.get(op)?;
        let nop = ib.iter().position(|x| *x == orig)?;
        Some(first(&pb, nop)? + (s - first(&pa, op)?))
    };
    let mut x = m.clone();
    for f in x.faults.iter_mut() {
        f.seq = map(f.seq)?;
    }
    for f in x.sigs.iter_mut() {
        f.0 = map(f.0)?;
    }
    for f in x.jumpseq.iter_mut() {
        f.0 = map(f.0)?;
    }
    Some(x)
}

fn write_replay(j: &Job, c: &dyn Case, cs: u64, keep: &[bool], m: &Mods, v: &Viol) -> String {
    let (raw, _, _) = one(j.env, c, keep, m);
    let mut s = c.scen(keep, m);
    m.apply(&mut s);
    let mut o = String::new();
    let _ = writeln!(o, "# dune simulation replay: /verif/check.sh replay <this file>");
    let _ = writeln!(o, "property {}\ncase {}\ntier {}\nkeep {}", j.id, cs, if j.thorough { "thorough" } else { "quick" }, keep.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>());
    let _ = writeln!(o, "violation {}", v.kind);
    let _ = writeln!(o, "message {}", v.msg.replace('\n', "\\n"));
    let _ = writeln!(o, "scenariohash {:016x}\ntracehash {:016x}", hash64(s.render().as_bytes()), hash64(raw.as_bytes()));
    o.push_str("mods\n");
    o.push_str(&m.text());
    o.push_str("end\n");
    for l in c.describe(keep).lines() {
        let _ = writeln!(o, "# {}", l);
    }
    let _ = writeln!(o, "# argv {:?}\n# --- scenario", s.argv);
    for l in s.render().lines() {
        let _ = writeln!(o, "# {}", l);
    }
    o.push_str("# --- trace\n");
    for l in raw.lines().take(4000) {
        let _ = writeln!(o, "# {}", &l[..l.len().min(400)]);
    }
    let dir = std::env::var("ORCH_REPLAY").unwrap_or("/verif/evidence/replay".into());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.txt", dir, j.id, cs);
    let _ = std::fs::write(&p, o);
    p
}
pub fn replay(env: &Env, file: &str, make: &(dyn Fn(&str, u64, bool) -> Box<dyn Case> + Sync)) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let (mut id, mut cs, mut keep, mut kind, mut sh, mut th, mut thorough) = (String::new(), 0u64, vec![], String::new(), String::new(), String::new(), false);
    let mut m = Mods::default();
    let mut inm = false;
    for l in t.lines() {
        if l == "end" {
            break;
        }
        if inm {
            m.parse_line(l);
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => id = v.into(),
            "case" => cs = v.parse().unwrap(),
            "tier" => thorough = v == "thorough",
            "keep" => keep = v.chars().map(|c| c == '1').collect(),
            "violation" => kind = v.into(),
            "scenariohash" => sh = v.into(),
            "tracehash" => th = v.into(),
            "mods" => inm = true,
            _ => (),
        }
    }
    let c = make(&id, cs, thorough);
    if c.nops() != keep.len() {
        println!("the case generator has changed since this file was written");
        return 2;
    }
    let mut s = c.scen(&keep, &m);
    m.apply(&mut s);
    if format!("{:016x}", hash64(s.render().as_bytes())) != sh {
        println!("the case generator has changed since this file was written");
        return 2;
    }
    let (raw, _, r) = one(env, &*c, &keep, &m);
    println!("{}", c.describe(&keep));
    print!("{}", m.text());
    println!("trace {}", if format!("{:016x}", hash64(raw.as_bytes())) == th { "identical to the recorded one" } else { "differs from the recorded one (the code under test changed?)" });
    if std::env::var("ORCH_TRACE").is_ok() {
        println!("{}", raw);
    }
    match r {
        Err(v) => {
            println!("{}: {}", v.kind, v.msg);
            if v.kind == kind {
                println!("VIOLATION property={} replay={}", id, file);
            }
            1
        }
        Ok(()) => {
            println!("no violation");
            0
        }
    }
}

/// known_findings.txt lines: `finding: property=<id> kind=<kind> match=<text> :: <what fails>`
fn load_known(id: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in t.lines() {
            let Some(r) = l.strip_prefix("finding: ") else { continue };
            let Some((head, what)) = r.split_once(" :: ") else { continue };
            let Some(r) = head.strip_prefix(&format!("property={} kind=", id)) else { continue };
            let Some((k, m)) = r.split_once(" match=") else { continue };
            v.push((k.to_string(), m.to_string(), what.to_string()));
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
}
fn evidence(j: &Job, s: &Stat, search_s: f64, wall: f64, viol: u32, harness: &BTreeMap<String, u64>) {
    let (level, rule, real, stub) = crate::about(j.id);
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},", js(j.id), js(if j.thorough { "thorough" } else { "quick" }), j.seed, js(level));
    let _ = writeln!(o, " \"coverage\": {{");
    let _ = writeln!(o, "  \"evaluations\": {},", s.runs);
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", s.cases.len().min(s.nontrivial as usize));
    let _ = writeln!(o, "  \"rule\": {},", js(rule));
    let _ = writeln!(o, "  \"samples\": [{}],", s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "  \"workloads\": {}, \"fault_free_runs\": {}, \"fault_runs\": {}, \"runs_in_which_a_fault_or_signal_was_delivered\": {},", s.ncases, s.base_runs, s.fault_runs, s.faulthit);
    let _ = writeln!(o, "  \"runs_per_hour\": {}, \"seeds_per_hour\": {},", per_h(s.runs), per_h(s.ncases));
    let _ = writeln!(o, "  \"simulated_seconds\": {:.3}, \"simulated_system_calls\": {},", s.simns as f64 / 1e9, s.seqs);
    let _ = writeln!(o, "  \"faults_injected\": {},", jmap(&s.faults));
    let _ = writeln!(o, "  \"fault_sites\": {},", jmap(&s.sites));
    let _ = writeln!(o, "  \"run_endings\": {},", jmap(&s.hows));
    let _ = writeln!(o, "  \"distinct_file_system_states\": {}, \"distinct_schedules\": {}, \"schedule_measure\": \"hash of every scheduling decision with more than one runnable task (threads of the shell, child programs, other processes)\",", s.states.len(), s.ilvs.len());
    let _ = writeln!(o, "  \"determinism\": {{\"runs_repeated\": {}, \"identical_traces\": {}}},", s.det_checked, s.det_checked - s.det_bad);
    let _ = writeln!(o, "  \"harness_limits_met\": {}, \"unsimulated_calls\": {},", jmap(harness), jmap(&s.unsim));
    let _ = writeln!(o, "  \"known_findings_seen\": {},", jmap(&s.known));
    let _ = writeln!(o, "  \"real_components\": {}, \"stub_components\": {}", js(real), js(stub));
    let _ = writeln!(o, " }},");
    let _ = writeln!(o, " \"assumptions\": [\"the simulated system calls behave as Linux documents them\", \"child programs are scripted stand-ins; the shell itself is the unmodified dunesh binary\"],");
    let _ = writeln!(o, " \"wall_s\": {:.2}, \"violations\": {}\n}}", wall, viol);
    let _ = std::fs::create_dir_all("/verif/evidence");
    let _ = std::fs::write(format!("/verif/evidence/{}.json", j.id), o);
}
