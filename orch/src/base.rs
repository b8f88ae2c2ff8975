//! Seeded randomness, scenario text, running one simulated execution, parsing its trace.
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------ PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5bd1e995_1234abcd);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a).max(1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.n(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

// ------------------------------------------------------------------ text helpers
pub fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    let b = s.as_bytes();
    let v = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    (0..b.len() / 2).map(|i| v(b[2 * i]) << 4 | v(b[2 * i + 1])).collect()
}
pub fn esc(p: &[u8]) -> String {
    let mut s = String::new();
    for &c in p {
        if c <= 32 || c >= 127 || c == b'%' {
            let _ = write!(s, "%{:02x}", c);
        } else {
            s.push(c as char);
        }
    }
    s
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
pub fn short(b: &[u8]) -> String {
    if b.len() > 160 {
        format!("{:?}... ({} bytes)", lossy(&b[..120]), b.len())
    } else {
        format!("{:?}", lossy(b))
    }
}
/// A dune string literal denoting exactly this text.
pub fn dstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ scenario
#[derive(Clone, Debug, PartialEq)]
pub enum Init {
    Dir(String, u32),
    File(Vec<u8>, u32, Vec<u8>),
    Link(String, String),
    Dev(String, &'static str),
}
#[derive(Clone, Debug, PartialEq)]
pub enum FaultKind {
    Errno(i64),
    Short(i64),
    Kill,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FaultSpec {
    pub seq: u64,
    pub kind: FaultKind,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Keys(Vec<u8>),
    Sig(i32),
    Hup,
    /// the window gets so many rows and columns
    Win(u16, u16),
}
#[derive(Clone, Debug, Default)]
pub struct Scen {
    pub seed: u64,
    pub fs: Vec<Init>,
    pub knobs: BTreeMap<&'static str, i64>,
    pub faults: Vec<FaultSpec>,
    pub sigs: Vec<(u64, i32)>,
    pub sigat: Vec<(i64, i32)>,
    pub jumps: Vec<(i64, i64)>,
    pub jumpseq: Vec<(u64, i64)>,
    pub tty: Vec<(i64, Vec<u8>)>,
    pub hup: Option<i64>,
    /// actions of the user, in order: (condition, delay in ns, what)
    pub user: Vec<(String, i64, Act)>,
    pub winsize: Option<(u16, u16)>,
    pub ttybits: i64,
    pub sched: Option<Vec<(u64, i32)>>,
    pub stdin: String,
    pub stdout: String,
    pub stderr: String,
    pub clock: Option<i64>,
    pub envprefix: String,
    pub actors: Vec<String>,
    pub argv: Vec<String>,
    pub env: Vec<(String, String)>,
    /// the home and the working directory, when they are unusual
    pub home: Option<Vec<u8>>,
    pub cwd: Option<Vec<u8>>,
}
impl Scen {
    pub fn new(seed: u64) -> Self {
        let mut s = Scen { seed, stdin: "null".into(), stdout: "sink".into(), stderr: "sink".into(), ..Default::default() };
        for d in ["/home", "/home/u", "/bin", "/tmp", "/etc", "/dev"] {
            s.dir(d);
        }
        s.fs.push(Init::Dev("/dev/null".into(), "null"));
        s.fs.push(Init::Dev("/dev/tty".into(), "tty"));
        s.file("/etc/os-release", b"NAME=\"Arch Linux\"\nID=arch\n");
        s
    }
    pub fn dir(&mut self, p: &str) {
        self.fs.push(Init::Dir(p.into(), 0o755));
    }
    pub fn file(&mut self, p: &str, c: &[u8]) {
        self.fs.push(Init::File(p.as_bytes().to_vec(), 0o644, c.to_vec()));
    }
    pub fn link(&mut self, p: &str, t: &str) {
        self.fs.push(Init::Link(p.into(), t.into()));
    }
    pub fn prog(&mut self, name: &str, ops: &str) {
        self.fs.push(Init::File(format!("/bin/{}", name).into_bytes(), 0o755, format!("#!sim {}", ops).into_bytes()));
    }
    pub fn knob(&mut self, k: &'static str, v: i64) {
        self.knobs.insert(k, v);
    }
    pub fn script(&mut self, text: &str) {
        self.fs.retain(|x| !matches!(x, Init::File(p, _, _) if p == b"/s.ds"));
        self.file("/s.ds", text.as_bytes());
        if self.argv.is_empty() {
            self.argv = vec!["/s.ds".into()];
        }
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "seed {}", self.seed);
        for i in &self.fs {
            let _ = match i {
                Init::Dir(p, m) => writeln!(o, "dir {} {:o}", esc(p.as_bytes()), m),
                Init::File(p, m, c) => writeln!(o, "file {} {:o} {}", esc(p), m, hex(c)),
                Init::Link(p, t) => writeln!(o, "link {} {}", esc(p.as_bytes()), esc(t.as_bytes())),
                Init::Dev(p, k) => writeln!(o, "dev {} {}", p, k),
            };
        }
        for (k, v) in &self.knobs {
            let _ = writeln!(o, "knob {} {}", k, v);
        }
        for f in &self.faults {
            let _ = match f.kind {
                FaultKind::Errno(e) => writeln!(o, "fault {} errno {}", f.seq, e),
                FaultKind::Short(n) => writeln!(o, "fault {} short {}", f.seq, n),
                FaultKind::Kill => writeln!(o, "fault {} kill 0", f.seq),
            };
        }
        for (s, n) in &self.sigs {
            let _ = writeln!(o, "sig {} {}", s, n);
        }
        for (t, n) in &self.sigat {
            let _ = writeln!(o, "sigat {} {}", t, n);
        }
        for (t, d) in &self.jumps {
            let _ = writeln!(o, "jump {} {}", t, d);
        }
        for (t, d) in &self.jumpseq {
            let _ = writeln!(o, "jumpseq {} {}", t, d);
        }
        for (t, d) in &self.tty {
            let _ = writeln!(o, "tty {} {}", t, hex(d));
        }
        if let Some((r, c)) = self.winsize {
            let _ = writeln!(o, "winsize {} {}", r, c);
        }
        if self.ttybits != 0 {
            let _ = writeln!(o, "ttybits {}", self.ttybits);
        }
        if let Some(t) = self.hup {
            let _ = writeln!(o, "hup {}", t);
        }
        for (c, d, a) in &self.user {
            let (c, pat) = match c.strip_prefix("o:") {
                Some(p) => ("o", format!(" {}", hex(p.as_bytes()))),
                None => (&c[..], String::new()),
            };
            let _ = match a {
                Act::Keys(k) => writeln!(o, "user {} {} keys {}{}", c, d, hex(k), pat),
                Act::Sig(n) => writeln!(o, "user {} {} sig {}{}", c, d, n, pat),
                Act::Hup => writeln!(o, "user {} {} hup 0{}", c, d, pat),
                Act::Win(r, w) => writeln!(o, "user {} {} win {}{}", c, d, *r as i64 * 10000 + *w as i64, pat),
            };
        }
        if let Some(v) = &self.sched {
            let _ = writeln!(o, "knob explicit_sched 1");
            for (i, c) in v {
                let _ = writeln!(o, "sched {} {}", i, c);
            }
        }
        if let Some(c) = self.clock {
            let _ = writeln!(o, "clock {}", c);
        }
        if !self.envprefix.is_empty() {
            let _ = writeln!(o, "envprefix {}", self.envprefix);
        }
        for a in &self.actors {
            let _ = writeln!(o, "actor {}", hex(a.as_bytes()));
        }
        let _ = writeln!(o, "stdin {}\nstdout {}\nstderr {}\ncwd {}", self.stdin, self.stdout, self.stderr, esc(self.cwd.as_deref().unwrap_or(b"/home/u")));
        o
    }
}

// ------------------------------------------------------------------ running
extern "C" {
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn pread(fd: i32, p: *mut u8, n: usize, off: i64) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn personality(p: u64) -> i32;
}
#[repr(C)]
struct SockFilter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct SockFprog {
    len: u16,
    filter: *const SockFilter,
}
/// System calls that could change anything outside the process; refused from before exec on,
/// so that nothing happens to the real system even if the simulator failed to load.
const DENIED: &[u32] = &[
    87, 263, 82, 264, 316, 83, 258, 84, 86, 265, 88, 266, 90, 91, 268, 92, 93, 94, 260, 76, 77, 85, 133, 259, 62, 42, 49, 165, 166, 161, 280, 235, 132, 188, 189, 190, 437, 200, 234, 101,
];
struct Containment(Vec<SockFilter>);
unsafe impl Sync for Containment {}
unsafe impl Send for Containment {}
fn containment() -> Containment {
    let mut v = vec![SockFilter { code: 0x20, jt: 0, jf: 0, k: 0 }];
    for &n in DENIED {
        v.push(SockFilter { code: 0x15, jt: 0, jf: 1, k: n });
        v.push(SockFilter { code: 0x06, jt: 0, jf: 0, k: 0x00050001 });
    }
    v.push(SockFilter { code: 0x15, jt: 0, jf: 4, k: 257 }); // openat
    v.push(SockFilter { code: 0x20, jt: 0, jf: 0, k: 32 });
    v.push(SockFilter { code: 0x45, jt: 0, jf: 1, k: 0o1 | 0o2 | 0o100 | 0o1000 });
    v.push(SockFilter { code: 0x06, jt: 0, jf: 0, k: 0x00050001 });
    v.push(SockFilter { code: 0x06, jt: 0, jf: 0, k: 0x7fff0000 });
    v.push(SockFilter { code: 0x06, jt: 0, jf: 0, k: 0x7fff0000 });
    Containment(v)
}

pub struct Env {
    pub bin: String,
    pub shim: String,
}
pub static RUNS: AtomicU64 = AtomicU64::new(0);
static LIVE: Mutex<Vec<(i32, std::time::Instant)>> = Mutex::new(Vec::new());
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for (pid, t) in LIVE.lock().unwrap().iter() {
            if t.elapsed().as_secs() > 60 {
                unsafe { kill(*pid, 9) };
            }
        }
    });
}
const TRACE_CAP: i64 = 96 << 20;
thread_local! { static TFD: std::cell::Cell<i32> = const { std::cell::Cell::new(-1) }; }

/// Runs dunesh under the simulator and returns the trace text. A run that is still busy when its
/// steps are used up gets four times as many before anybody calls it a hang.
pub fn run_raw(e: &Env, s: &Scen) -> String {
    let t = run_once(e, s);
    if !t.contains("\nX steplimit") || s.knobs.contains_key("maxsteps") || s.hup.is_some() {
        return t;
    }
    let mut s2 = s.clone();
    s2.knob("maxsteps", 1_600_000);
    let t2 = run_once(e, &s2);
    if t2.contains("\nX died") || t2.contains("\nX tracefull") { t } else { t2 }
}
fn run_once(e: &Env, s: &Scen) -> String {
    use std::os::unix::process::CommandExt;
    RUNS.fetch_add(1, Ordering::Relaxed);
    let text = s.render();
    unsafe {
        let sf = memfd_create(b"s\0".as_ptr() as *const i8, 1);
        let mut off = 0;
        while off < text.len() {
            let r = write(sf, text.as_ptr().add(off), text.len() - off);
            assert!(r > 0);
            off += r as usize;
        }
        let tf = memfd_create(b"t\0".as_ptr() as *const i8, 1);
        ftruncate(tf, TRACE_CAP);
        let mut c = std::process::Command::new(&e.bin);
        c.args(&s.argv).env_clear();
        c.env("HOME", "/home/u").env("PATH", "/bin").env("TZ", "UTC").env("RUST_BACKTRACE", "0").env("TERM", "xterm").env("LD_PRELOAD", &e.shim);
        for (k, v) in &s.env {
            c.env(k, v);
        }
        if let Some(h) = &s.home {
            use std::os::unix::ffi::OsStrExt;
            c.env("HOME", std::ffi::OsStr::from_bytes(h));
        }
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        c.stderr(if std::env::var("ORCH_STDERR").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() });
        let filt = containment();
        c.pre_exec(move || {
            dup2(sf, 900);
            dup2(tf, 901);
            setrlimit(0, &[10, 20]); // CPU seconds
            setrlimit(4, &[0, 0]); // no core dumps
            setrlimit(9, &[4 << 30, 4 << 30]); // address space
            personality(0x0040000);
            prctl(38, 1, 0, 0, 0);
            let p = SockFprog { len: filt.0.len() as u16, filter: filt.0.as_ptr() };
            if prctl(22, 2, &p as *const _ as u64, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
        let mut ch = match c.spawn() {
            Ok(c) => c,
            Err(er) => {
                close(sf);
                close(tf);
                return format!("X spawnfail {}\n", er);
            }
        };
        let pid = ch.id() as i32;
        LIVE.lock().unwrap().push((pid, std::time::Instant::now()));
        let st = ch.wait();
        LIVE.lock().unwrap().retain(|x| x.0 != pid);
        close(sf);
        let mut lenb = [0u8; 8];
        pread(tf, lenb.as_mut_ptr(), 8, 0);
        let len = u64::from_le_bytes(lenb) as usize;
        let mut v = vec![0u8; len];
        let mut o = 0;
        while o < len {
            let r = pread(tf, v.as_mut_ptr().add(o), len - o, 8 + o as i64);
            if r <= 0 {
                break;
            }
            o += r as usize;
        }
        close(tf);
        let _ = TFD.with(|_| 0);
        let mut t = String::from_utf8(v).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned());
        if !t.contains("\nX ") {
            t.push_str(&format!("\nX died {:?}\n", st.map(|s| format!("{:?}", s))));
        }
        t
    }
}

// ------------------------------------------------------------------ trace
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(u64),
    Link(Vec<u8>),
    Other,
}
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub why: String,
    pub at: i64,
    pub ev: usize,
    pub nodes: BTreeMap<Vec<u8>, (Node, u32)>,
}
#[derive(Clone, Debug)]
pub struct Spawn {
    pub pid: i32,
    pub file: Vec<u8>,
    pub cwd: Option<Vec<u8>>,
    pub fds: [(i32, i32); 3],
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Sys { seq: u64, tid: i32, cls: i32, name: String, path: String, ret: i64, err: i64 },
    Out { ofd: i32, pid: i32, data: Vec<u8> },
    Fault { seq: u64, kind: String, val: i64, name: String },
    Spawn(Spawn),
    SpawnFail { file: Vec<u8>, err: i64 },
    Exit { pid: i32, status: i32, now: i64 },
    Read { pid: i32, data: Option<Vec<u8>> },
    Mark(usize),
    Thread { tid: i32, start: bool },
    Sig(String),
    Tty(String),
    Clock(i64, i64),
    Mode(String),
    /// all settings of the terminal, after a change
    Settings(String),
    Actor(String),
    /// at, kind, bytes, terminal raw, terminal echoing, programs running
    Input { at: i64, kind: i32, data: Vec<u8>, raw: bool, echo: bool, kids: i32 },
}
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub snaps: Vec<Snap>,
    pub content: HashMap<u64, Vec<u8>>,
    pub how: String,
    pub code: String,
    pub zombies: Vec<String>,
    pub leaks: Vec<String>,
    pub blocked: Vec<String>,
    pub unsim: Vec<String>,
    pub decisions: Vec<(u64, i32)>,
    pub now: i64,
    pub nseq: u64,
    pub ndec: u64,
    pub ilv: u64,
}
impl Trace {
    pub fn parse(t: &str) -> Trace {
        let mut r = Trace::default();
        for line in t.lines() {
            let mut w = line.split(' ');
            let Some(k) = w.next() else { continue };
            macro_rules! num {
                () => {
                    w.next().and_then(|x| x.parse().ok()).unwrap_or(0)
                };
            }
            match k {
                "S" => {
                    let (seq, tid, cls) = (num!(), num!(), num!());
                    let name = w.next().unwrap_or("").to_string();
                    let path = w.next().unwrap_or("").to_string();
                    r.evs.push(Ev::Sys { seq, tid, cls, name, path, ret: num!(), err: num!() });
                }
                "O" => {
                    let (ofd, pid) = (num!(), num!());
                    r.evs.push(Ev::Out { ofd, pid, data: unhex(w.next().unwrap_or("-")) });
                }
                "F" => {
                    let seq = num!();
                    let kind = w.next().unwrap_or("").to_string();
                    let val = num!();
                    r.evs.push(Ev::Fault { seq, kind, val, name: w.next().unwrap_or("").into() });
                }
                "D" => r.decisions.push((num!(), num!())),
                "P" => {
                    let pid = num!();
                    let file = unhex(w.next().unwrap_or("-"));
                    let c = w.next().unwrap_or("!");
                    let cwd = if c == "!" { None } else { Some(unhex(c)) };
                    let mut fds = [(0, 0); 3];
                    for f in fds.iter_mut() {
                        let mut p = w.next().unwrap_or("0:0").split(':');
                        *f = (p.next().unwrap_or("0").parse().unwrap_or(0), p.next().unwrap_or("0").parse().unwrap_or(0));
                    }
                    let n: usize = num!();
                    let argv = (0..n).map(|_| unhex(w.next().unwrap_or("-"))).collect();
                    let mut env = vec![];
                    for x in w {
                        if let Some(h) = x.strip_prefix('E') {
                            env.push(unhex(h));
                        }
                    }
                    r.evs.push(Ev::Spawn(Spawn { pid, file, cwd, fds, argv, env }));
                }
                "P0" => {
                    let file = unhex(w.next().unwrap_or("-"));
                    r.evs.push(Ev::SpawnFail { file, err: num!() });
                }
                "C" => {
                    let pid = num!();
                    match w.next() {
                        Some("exit") => {
                            let status = num!();
                            w.next();
                            r.evs.push(Ev::Exit { pid, status, now: num!() });
                        }
                        _ => (),
                    }
                }
                "R" => {
                    let pid = num!();
                    let d = w.next().unwrap_or("eof");
                    r.evs.push(Ev::Read { pid, data: if d == "eof" { None } else { Some(unhex(d)) } });
                }
                "V" => {
                    let why = w.next().unwrap_or("").to_string();
                    r.snaps.push(Snap { why, at: num!(), ev: r.evs.len(), nodes: BTreeMap::new() });
                    r.evs.push(Ev::Mark(r.snaps.len() - 1));
                }
                "N" => {
                    let v = num!();
                    r.content.insert(v, unhex(w.next().unwrap_or("-")));
                }
                "d" | "f" | "l" | "x" => {
                    let p = unesc(w.next().unwrap_or(""));
                    let s = r.snaps.last_mut().unwrap();
                    let a = w.next().unwrap_or("");
                    let b = w.next().unwrap_or("0");
                    let m = u32::from_str_radix(a, 8).unwrap_or(0);
                    let n = match k {
                        "d" => (Node::Dir, m),
                        "f" => (Node::File(b.parse().unwrap_or(0)), m),
                        "l" => (Node::Link(unesc(a)), 0o777),
                        _ => (Node::Other, 0),
                    };
                    s.nodes.insert(p, n);
                }
                "T" => {
                    let tid = num!();
                    r.evs.push(Ev::Thread { tid, start: w.next() == Some("start") });
                }
                "K" | "G" | "H" => r.evs.push(Ev::Sig(line.to_string())),
                "I" => {
                    let (at, kind) = (num!(), num!());
                    let data = unhex(w.next().unwrap_or("-"));
                    let raw = w.next() == Some("raw");
                    let echo = w.next() == Some("echo");
                    let kids = num!();
                    // the new size of the window
                    let data = if kind == 8 { w.next().unwrap_or("0").as_bytes().to_vec() } else { data };
                    r.evs.push(Ev::Input { at, kind, data, raw, echo, kids });
                }
                "J" => r.evs.push(Ev::Tty(line.to_string())),
                "Q" => {
                    let mut p = w.next().unwrap_or("0.0").split('.');
                    let s = p.next().unwrap_or("0").parse().unwrap_or(0);
                    r.evs.push(Ev::Clock(s, p.next().unwrap_or("0").parse().unwrap_or(0)));
                }
                "Y" => {
                    w.next();
                    r.evs.push(Ev::Mode(w.next().unwrap_or("").into()));
                }
                "YH" => r.evs.push(Ev::Settings(w.next().unwrap_or("").into())),
                "A" => r.evs.push(Ev::Actor(line.to_string())),
                "Z" => r.zombies.push(line.to_string()),
                "L" => r.leaks.push(line.to_string()),
                "B" => r.blocked.push(line.to_string()),
                "U" => r.unsim.push(line.to_string()),
                "E" => {
                    let t: Vec<&str> = line.split(' ').collect();
                    let g = |k: &str| t.iter().position(|x| *x == k).and_then(|i| t.get(i + 1)).copied().unwrap_or("0");
                    r.nseq = g("seq").parse().unwrap_or(0);
                    r.ndec = g("dec").parse().unwrap_or(0);
                    r.ilv = u64::from_str_radix(g("ilv"), 16).unwrap_or(0);
                    r.now = g("now").parse().unwrap_or(0);
                }
                "X" => {
                    r.how = w.next().unwrap_or("").into();
                    r.code = w.collect::<Vec<_>>().join(" ");
                }
                _ => (),
            }
        }
        r
    }
    /// Everything written by process `pid` (0 = the shell; -1 = anyone) to open file `ofd` (2 stdout, 3 stderr).
    pub fn out(&self, ofd: i32, pid: i32) -> Vec<u8> {
        let mut v = vec![];
        for e in &self.evs {
            if let Ev::Out { ofd: o, pid: p, data } = e {
                if *o == ofd && (pid < 0 || *p == pid) {
                    v.extend_from_slice(data);
                }
            }
        }
        v
    }
    pub fn start(&self) -> &Snap {
        &self.snaps[0]
    }
    pub fn end(&self) -> Option<&Snap> {
        self.snaps.last().filter(|s| s.why == "end")
    }
    pub fn file<'a>(&'a self, s: &Snap, p: &str) -> Option<&'a [u8]> {
        match s.nodes.get(p.as_bytes()) {
            Some((Node::File(v), _)) => self.content.get(v).map(|x| &x[..]),
            _ => None,
        }
    }
    pub fn bytes(&self, v: u64) -> &[u8] {
        self.content.get(&v).map(|x| &x[..]).unwrap_or(b"")
    }
}

// ------------------------------------------------------------------ values printed by `debug`
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    None,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
    List(Vec<Val>),
    Map(BTreeMap<String, Val>),
    Other(String),
}
pub struct VP<'a> {
    pub s: &'a str,
    pub i: usize,
}
impl<'a> VP<'a> {
    fn ws(&mut self) {
        while self.s[self.i..].starts_with(' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn string(&mut self) -> Option<String> {
        if !self.eat("\"") {
            return None;
        }
        let mut o = String::new();
        let mut it = self.s[self.i..].char_indices();
        while let Some((k, c)) = it.next() {
            match c {
                '"' => {
                    self.i += k + 1;
                    return Some(o);
                }
                '\\' => match it.next()?.1 {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    '0' => o.push('\0'),
                    'u' => {
                        it.next();
                        let mut h = String::new();
                        loop {
                            let c = it.next()?.1;
                            if c == '}' {
                                break;
                            }
                            h.push(c);
                        }
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    }
    pub fn val(&mut self) -> Option<Val> {
        self.ws();
        let r = &self.s[self.i..];
        if r.starts_with('"') {
            return self.string().map(Val::Str);
        }
        if self.eat("b[") {
            let mut v = vec![];
            loop {
                self.ws();
                if self.eat("]") {
                    return Some(Val::Bytes(v));
                }
                self.eat(",");
                self.ws();
                match self.val()? {
                    Val::Int(n) => v.push(n as u8),
                    _ => return None,
                }
            }
        }
        if self.eat("[") {
            let mut v = vec![];
            loop {
                self.ws();
                if self.eat("]") {
                    return Some(Val::List(v));
                }
                if !v.is_empty() && !self.eat(",") {
                    return None;
                }
                v.push(self.val()?);
            }
        }
        if self.eat("{") {
            let mut m = BTreeMap::new();
            if self.eat("}") {
                return Some(Val::Map(m));
            }
            loop {
                // a key is printed as it is
                let rest = &self.s[self.i..];
                let k = rest.find(": ")?;
                let key = rest[..k].to_string();
                self.i += k + 2;
                let v = self.val()?;
                m.insert(key, v);
                if self.eat("}") {
                    return Some(Val::Map(m));
                }
                if !self.eat(", ") {
                    return None;
                }
            }
        }
        let end = r.find(|c| matches!(c, ',' | ']' | '}' | '\n')).unwrap_or(r.len());
        let t = &r[..end];
        self.i += end;
        Some(match t {
            "None" => Val::None,
            "True" => Val::Bool(true),
            "False" => Val::Bool(false),
            _ => {
                if let Ok(n) = t.parse::<i64>() {
                    Val::Int(n)
                } else if let Ok(f) = t.parse::<f64>() {
                    Val::Float(f)
                } else {
                    Val::Other(t.into())
                }
            }
        })
    }
}
impl Val {
    /// (code, message) when this is the ["ERR", code, message] list made by the error handler.
    pub fn err(&self) -> Option<(i64, &str)> {
        match self {
            Val::List(v) if v.len() == 3 && v[0] == Val::Str("ERR".into()) => match (&v[1], &v[2]) {
                (Val::Int(c), Val::Str(m)) => Some((*c, m)),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn strs(&self) -> Option<Vec<String>> {
        match self {
            Val::List(v) => v.iter().map(|x| if let Val::Str(s) = x { Some(s.clone()) } else { None }).collect(),
            _ => None,
        }
    }
}
/// The values printed by `debug ["@@K", V]`, by K.
pub fn marks(out: &[u8]) -> BTreeMap<usize, Val> {
    let t = String::from_utf8_lossy(out);
    let mut r = BTreeMap::new();
    let mut from = 0;
    while let Some(p) = t[from..].find("[\"@@") {
        let at = from + p;
        let rest = &t[at + 4..];
        let Some(q) = rest.find('"') else { break };
        if let Ok(k) = rest[..q].parse::<usize>() {
            let mut vp = VP { s: &t, i: at };
            if let Some(Val::List(v)) = vp.val() {
                if v.len() == 2 {
                    r.entry(k).or_insert(v[1].clone());
                    from = vp.i;
                    continue;
                }
            }
        }
        from = at + 4;
    }
    r
}
