//! Engine C: launches and pipelines of simulated programs, judged process by process: what was
//! started, with which arguments, variables, directory and streams, which bytes it was given and
//! which bytes came out (C10, C11, C12).
use crate::base::*;
use crate::runner::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum Arg {
    S(String),
    I(i64),
    F(&'static str),
    B(bool),
    None,
    L(Vec<Arg>),
    V(u32),
    Sum(i64, i64),
    Rep(u8, usize),
}
impl Arg {
    fn t(&self) -> String {
        match self {
            Arg::S(s) => dstr(s),
            Arg::I(n) => n.to_string(),
            Arg::F(f) => f.to_string(),
            Arg::B(b) => if *b { "True".into() } else { "False".into() },
            Arg::None => "None".into(),
            Arg::L(v) => format!("[{}]", v.iter().map(|x| x.t()).collect::<Vec<_>>().join(", ")),
            Arg::V(v) => format!("vv{}", v),
            Arg::Sum(a, b) => format!("({} + {})", a, b),
            Arg::Rep(c, n) => format!("(\"{}\" * {})", *c as char, n),
        }
    }
    fn flat(&self, vars: &BTreeMap<u32, String>, o: &mut Vec<String>) -> bool {
        match self {
            Arg::S(s) => o.push(s.clone()),
            Arg::I(n) => o.push(n.to_string()),
            Arg::F(f) => o.push(f.to_string()),
            Arg::B(_) => o.push(self.t()),
            Arg::None => (),
            Arg::L(v) => return v.iter().all(|x| x.flat(vars, o)),
            Arg::V(v) => match vars.get(v) {
                Some(s) => o.push(s.clone()),
                None => return false,
            },
            Arg::Sum(a, b) => o.push((a + b).to_string()),
            Arg::Rep(c, n) => o.push((*c as char).to_string().repeat(*n)),
        }
        true
    }
}
#[derive(Clone, Debug)]
enum PO {
    Out(Vec<u8>),
    Err(Vec<u8>),
    Gen(usize, u64),
    Cat,
    Head(usize),
    Line,
    Sink,
    Count,
    Xor(u8),
    Sleep(u64),
    App,
    CloseIn,
    CloseOut,
    Yield,
    Exit(u8),
    Die(u8),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bin {
    Ok,
    Missing,
    NoExec,
    Garbage,
    Dir,
}
#[derive(Clone, Debug)]
struct Prog {
    ops: Vec<PO>,
    bin: Bin,
    tools: bool,
}
#[derive(Clone, Debug)]
struct Cmd {
    prog: usize,
    form: u8,
    args: Vec<Arg>,
}
#[derive(Clone, Debug)]
enum Stg {
    C(Cmd),
    /// a function stage: what it does, a name for it
    F(u8, u32),
    /// a function stage that starts a program itself
    FC(Cmd, u32),
    /// a value as the first stage
    Val(u8, u32),
}
#[derive(Clone, Debug)]
enum St {
    Launch(Cmd, u8),
    Pipe(Vec<Stg>, u8),
    Let(u32, String),
    Cd(String),
}
pub struct ExecCase {
    prop: String,
    base: Scen,
    progs: Vec<Prog>,
    sts: Vec<St>,
    wrapped: bool,
    input: Vec<u8>,
    outfile: bool,
    big: bool,
}

#[derive(Clone, Debug, Default)]
struct XP {
    stmt: usize,
    argv: Vec<String>,
    cwd: String,
    env: BTreeMap<u32, String>,
    exact: bool,
    piped_in: bool,
    piped_out: bool,
    read: Vec<u8>,
    err: Vec<u8>,
    status: i32,
    launch: bool,
}
#[derive(Clone, Debug, Default)]
struct X {
    procs: Vec<XP>,
    out: Vec<u8>,
    files: BTreeMap<String, Vec<u8>>,
    errs: usize,
    says: Vec<String>,
    hit: bool,
    nprim: usize,
    log: String,
    ran: Vec<bool>,
}
#[derive(Clone, Debug)]
enum D {
    Text(Vec<u8>),
    Bytes(Vec<u8>),
    Int(i64),
    None,
}
impl D {
    fn bytes(&self) -> Vec<u8> {
        match self {
            D::Text(b) | D::Bytes(b) => b.clone(),
            D::Int(n) => n.to_string().into_bytes(),
            D::None => b"None".to_vec(),
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Cand {
    at: usize,
    /// 0: the program is not started; 1: it is started, but nothing can be fed to it
    kind: u8,
    code: i64,
}
const BIN0: &[u8] = b"\x00\xff\xfe\x80bin\n\xc3\x28\x00";
fn ascii(n: usize) -> Vec<u8> {
    (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz\n"[(i * 7 + i / 27) % 27]).collect()
}

struct W<'a> {
    c: &'a ExecCase,
    x: X,
    vars: BTreeMap<u32, String>,
    cwd: String,
    pos: usize,
    cand: Option<Cand>,
    stmt: usize,
    bad: bool,
}
type R<T> = Result<T, (i64, String)>;
impl<'a> W<'a> {
    fn name(&self, c: &Cmd) -> String {
        let p = &self.c.progs[c.prog];
        match c.form {
            _ if p.tools => format!("tools/p{}", c.prog),
            2 => format!("/bin/p{}", c.prog),
            _ => format!("p{}", c.prog),
        }
    }
    /// starts a program with the given input (None: the shell's own) and gives its output
    fn run(&mut self, c: &Cmd, pipe: bool, exact: bool, extra: Option<(u32, &D)>, input: Option<Vec<u8>>, last: bool) -> R<Vec<u8>> {
        let name = self.name(c);
        let mut argv = vec![name.clone()];
        let mut vars = self.vars.clone();
        if let Some((k, d)) = extra {
            vars.insert(k, String::from_utf8_lossy(&d.bytes()).to_string());
        }
        for a in &c.args {
            if !a.flat(&vars, &mut argv) {
                self.bad = true;
            }
        }
        let i = self.x.nprim;
        self.x.nprim += 1;
        let p = &self.c.progs[c.prog];
        let mut bin = p.bin;
        if p.tools && self.cwd != "/home/u" {
            bin = Bin::Missing;
        }
        let toolong = argv.iter().any(|a| a.len() + 1 > 131072);
        let code = match bin {
            _ if toolong => 3,
            Bin::Ok => 0,
            Bin::Missing => 7,
            Bin::NoExec | Bin::Dir => 6,
            Bin::Garbage => 3,
        };
        let mut input = input;
        let mut thread = None;
        if let Some(k) = self.cand {
            if k.at == i {
                if k.kind == 0 {
                    self.x.hit = true;
                    return Err((k.code, String::new()));
                }
                if k.kind == 1 && input.is_some() && code == 0 {
                    self.x.hit = true;
                    input = Some(vec![]);
                    thread = Some(k.code);
                }
            }
        }
        if code != 0 {
            let says = match (pipe, code) {
                (true, _) if c.form == 3 && !p.tools => format!("al{}", c.prog),
                (true, _) => format!("p{}", c.prog),
                (false, 7 | 3) if !toolong => name.clone(),
                _ => String::new(),
            };
            return Err((if pipe { 9 } else { code }, says));
        }
        let piped_in = input.is_some();
        let own = input.is_none();
        let data = input.unwrap_or_else(|| self.c.input[self.pos..].to_vec());
        let (mut at, mut out, mut err) = (0usize, vec![], vec![]);
        let (mut inopen, mut outopen) = (true, true);
        let mut status = 0;
        let avail = |open: bool, at: usize| if open { data.len() - at } else { 0 };
        for o in &p.ops {
            let mut put = |b: &[u8]| {
                if outopen {
                    out.extend_from_slice(b)
                }
            };
            match o {
                PO::Out(b) => put(b),
                PO::Err(b) => err.extend_from_slice(b),
                PO::Gen(n, m) => {
                    let mut s = *m;
                    let b: Vec<u8> = (0..*n)
                        .map(|_| {
                            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            let x = (s >> 56) as u8;
                            if m % 2 == 1 { x } else if x % 37 == 0 { b'\n' } else { b'a' + x % 26 }
                        })
                        .collect();
                    put(&b);
                }
                PO::Cat | PO::Sink | PO::Count | PO::Xor(_) | PO::Head(_) => {
                    let mut n = avail(inopen, at);
                    if let PO::Head(k) = o {
                        n = n.min(*k);
                    }
                    let d = &data[at..at + n];
                    at += n;
                    match o {
                        PO::Cat | PO::Head(_) => put(d),
                        PO::Count => put(format!("{}\n", n).as_bytes()),
                        PO::Xor(k) => put(&d.iter().map(|x| x ^ k).collect::<Vec<_>>()),
                        _ => (),
                    }
                }
                PO::Line => {
                    let n = avail(inopen, at);
                    let d = &data[at..at + n];
                    at += d.iter().position(|x| *x == b'\n').map_or(n, |k| k + 1);
                }
                PO::Sleep(_) | PO::Yield => (),
                PO::App => {
                    let _ = write!(self.x.log, "<{}>", c.prog);
                }
                PO::CloseIn => inopen = false,
                PO::CloseOut => outopen = false,
                PO::Exit(n) => {
                    status = (*n as i32) << 8;
                    break;
                }
                PO::Die(n) => {
                    status = *n as i32;
                    break;
                }
            }
        }
        if own {
            self.pos += at;
        }
        self.x.ran[c.prog] = true;
        let env = vars.iter().filter(|(_, v)| v.len() <= 1024).map(|(k, v)| (*k, v.clone())).collect();
        self.x.procs.push(XP {
            stmt: self.stmt,
            argv,
            cwd: self.cwd.clone(),
            env,
            exact,
            piped_in,
            piped_out: pipe && !last,
            read: data[..at].to_vec(),
            err,
            status,
            launch: !pipe,
        });
        if !pipe || last {
            self.x.out.extend_from_slice(&out);
            out.clear();
        }
        match thread {
            Some(code) => Err((code, String::new())),
            None => Ok(out),
        }
    }
    fn pipe(&mut self, v: &[Stg], exact: bool) -> R<D> {
        let mut d = D::None;
        for (i, s) in v.iter().enumerate() {
            let last = i + 1 == v.len();
            match s {
                Stg::C(c) => {
                    let inp = if i == 0 { None } else { Some(d.bytes()) };
                    let o = self.run(c, true, exact, None, inp, last)?;
                    d = if last {
                        D::None
                    } else if std::str::from_utf8(&o).is_ok() {
                        D::Text(o)
                    } else {
                        D::Bytes(o)
                    };
                }
                Stg::Val(k, n) => {
                    d = match k {
                        0 => D::Text(format!("v{}.é\n", n).into_bytes()),
                        1 => D::Int(*n as i64),
                        2 => D::Bytes(BIN0.to_vec()),
                        3 => D::Text(ascii(70000)),
                        4 => D::Text(vec![]),
                        _ => D::Text(b"ab".repeat(*n as usize % 900)),
                    }
                }
                Stg::F(k, n) => match k {
                    0 => (),
                    1 => match d {
                        D::Text(mut b) => {
                            b.extend_from_slice(format!("+{}", n).as_bytes());
                            d = D::Text(b);
                        }
                        _ => {
                            self.bad = true;
                        }
                    },
                    2 | 8 => {
                        match d {
                            D::Text(ref b) | D::Bytes(ref b) => {
                                self.x.files.insert(format!("/home/u/r{}", n), b.clone());
                            }
                            _ => self.bad = true,
                        }
                        if *k == 8 {
                            d = D::Int(*n as i64);
                        }
                    }
                    3 => d = D::Text(format!("const{}", n).into_bytes()),
                    4 => d = D::Bytes(BIN0.to_vec()),
                    5 => d = D::Int(*n as i64),
                    6 => return Err((9, String::new())),
                    7 => return Err((1, String::new())),
                    11 => d = D::Text(vec![]),
                    12 => d = D::Int(0),
                    13 => d = D::None,
                    9 => match d {
                        D::Text(b) => d = D::Text([&b[..], &b[..]].concat()),
                        _ => self.bad = true,
                    },
                    _ => d = D::Text(ascii(70000)),
                },
                Stg::FC(c, n) => {
                    // (vvN -> { PROGRAM; vvN })
                    let dd = d.clone();
                    self.run(c, false, false, Some((*n, &dd)), None, true)?;
                }
            }
        }
        Ok(d)
    }
    fn st(&mut self, s: &St) -> R<()> {
        match s {
            St::Launch(c, ctx) => {
                let reps = if *ctx == 2 { 2 } else { 1 };
                for _ in 0..reps {
                    self.run(c, false, *ctx != 1 && *ctx != 5, None, None, true)?;
                }
            }
            St::Pipe(v, ctx) => {
                let d = self.pipe(v, *ctx != 1)?;
                if *ctx == 2 || *ctx == 3 {
                    // the value is kept in a file
                    match d {
                        D::Text(b) | D::Bytes(b) => {
                            self.x.files.insert(format!("/home/u/w{}", self.stmt), b);
                        }
                        _ => self.bad = true,
                    }
                }
            }
            St::Let(k, v) => {
                self.vars.insert(*k, v.clone());
            }
            St::Cd(d) => self.cwd = d.clone(),
        }
        Ok(())
    }
}
impl Cmd {
    fn t(&self, p: &Prog) -> String {
        let name = match self.form {
            _ if p.tools => "\"tools/pK\"".replace('K', &self.prog.to_string()),
            1 => format!("\"p{}\"", self.prog),
            2 => format!("\"/bin/p{}\"", self.prog),
            3 => format!("al{}", self.prog),
            4 => format!("(\"p\" + \"{}\")", self.prog),
            _ => format!("p{}", self.prog),
        };
        let mut o = name;
        for a in &self.args {
            o.push(' ');
            o.push_str(&a.t());
        }
        o
    }
}
impl ExecCase {
    fn stage(&self, s: &Stg) -> String {
        match s {
            // a program in parentheses, or quoted, is that program
            Stg::C(c) => match c.form {
                4 => format!("({})", Cmd { form: 0, ..c.clone() }.t(&self.progs[c.prog])),
                5 => format!("'({})", c.t(&self.progs[c.prog])),
                6 => format!("'{}", c.t(&self.progs[c.prog])),
                7 => format!("'{}", Cmd { form: 1, ..c.clone() }.t(&self.progs[c.prog])),
                _ => c.t(&self.progs[c.prog]),
            },
            Stg::Val(k, n) => match k {
                0 => format!("\"v{}.é\\n\"", n),
                1 => n.to_string(),
                2 => "(fs@read \"/home/u/bin0\")".into(),
                3 => "(fs@read \"/home/u/txt0\")".into(),
                4 => "\"\"".into(),
                _ => format!("(\"ab\" * {})", n % 900),
            },
            Stg::F(k, n) => match k {
                0 => format!("(x{} -> x{})", n, n),
                1 => format!("(x{} -> (x{} + \"+{}\"))", n, n, n),
                2 => format!("(x{} -> {{ x{} >> \"/home/u/r{}\"; x{} }})", n, n, n, n),
                3 => format!("(x{} -> \"const{}\")", n, n),
                4 => format!("(x{} -> (fs@read \"/home/u/bin0\"))", n),
                5 => format!("(x{} -> {})", n, n),
                6 => format!("(x{} -> (1 // 0))", n),
                7 => format!("(x{} -> (5 1))", n),
                8 => format!("(x{} -> {{ x{} >> \"/home/u/r{}\"; {} }})", n, n, n, n),
                9 => format!("(x{} -> (x{} + x{}))", n, n, n),
                11 => format!("(x{} -> \"\")", n),
                12 => format!("(x{} -> 0)", n),
                13 => format!("(x{} -> None)", n),
                _ => format!("(x{} -> (fs@read \"/home/u/txt0\"))", n),
            },
            Stg::FC(c, n) => format!("(vv{} -> {{ {}; vv{} }})", n, c.t(&self.progs[c.prog]), n),
        }
    }
    fn st_text(&self, k: usize, s: &St) -> (String, String) {
        let mut pre = String::new();
        let core = match s {
            St::Launch(c, ctx) => {
                if c.form == 3 && !self.progs[c.prog].tools {
                    let _ = write!(pre, "let al{} = 'p{};\n", c.prog, c.prog);
                }
                let t = c.t(&self.progs[c.prog]);
                match ctx {
                    1 => format!("((u -> {{ {}; 0 }}) 0)", t),
                    2 => format!("for vi in [1, 2] {{ {}; }}", t),
                    3 => format!("if True {{ {} }} else {{ 0 }}", t),
                    4 => format!("let res{} = ({})", k, t),
                    5 => format!("fn@map (u -> ({})) [0]", t),
                    _ => t,
                }
            }
            St::Pipe(v, ctx) => {
                for s in v {
                    if let Stg::C(c) | Stg::FC(c, _) = s {
                        if c.form == 3 && !self.progs[c.prog].tools {
                            let _ = write!(pre, "let al{} = 'p{};\n", c.prog, c.prog);
                        }
                    }
                }
                let t = v.iter().map(|x| self.stage(x)).collect::<Vec<_>>().join(" | ");
                match ctx {
                    1 => format!("((u -> {{ {}; 0 }}) 0)", t),
                    2 => format!("({}) >> \"/home/u/w{}\"", t, k),
                    3 => format!("{{ let got{} = ({}); fs@write \"/home/u/w{}\" got{} }}", k, t, k, k),
                    4 => format!("({})", t),
                    5 => format!("if True {{ {} }} else {{ 0 }}", t),
                    _ => t,
                }
            }
            St::Let(v, s) => {
                let s = if s.len() > 600 { format!("(\"{}\" * {})", &s[..1], s.len()) } else { dstr(s) };
                return (format!("let vv{} = {};\n", v, s), String::new());
            }
            St::Cd(d) => return (format!("cd {};\n", dstr(d)), String::new()),
        };
        (pre, core)
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut o = String::from("echo \"@@0\";\n");
        for (k, s) in self.sts.iter().enumerate() {
            if !keep[k] {
                continue;
            }
            let (pre, core) = self.st_text(k, s);
            o.push_str(&pre);
            if core.is_empty() {
                continue;
            }
            if self.wrapped {
                let _ = write!(o, "echo (err@try ({{ {}; 0 }}) (e -> e@code)) \"@@{}\";\n", core, k);
            } else {
                let _ = write!(o, "{};\necho 0 \"@@{}\";\n", core, k);
            }
        }
        o
    }
    fn model(&self, keep: &[bool], cand: Option<Cand>) -> (X, bool) {
        let mut w = W {
            c: self,
            x: X { ran: vec![false; self.progs.len()], ..Default::default() },
            vars: BTreeMap::new(),
            cwd: "/home/u".into(),
            pos: 0,
            cand,
            stmt: 0,
            bad: false,
        };
        w.x.out.extend_from_slice(b"@@0\n");
        for (k, s) in self.sts.iter().enumerate() {
            if !keep[k] {
                continue;
            }
            w.stmt = k;
            let r = w.st(s);
            let shows = !matches!(s, St::Let(..) | St::Cd(_));
            match r {
                Ok(()) => {
                    if shows {
                        w.x.out.extend_from_slice(format!("0 @@{}\n", k).as_bytes());
                    }
                }
                Err((code, says)) => {
                    if self.wrapped {
                        w.x.out.extend_from_slice(format!("{} @@{}\n", code, k).as_bytes());
                    } else {
                        w.x.errs += 1;
                        w.x.says.push(says);
                        break;
                    }
                }
            }
        }
        let bad = w.bad;
        (w.x, !bad)
    }
    fn judge(&self, keep: &[bool], x: &X, t: &Trace) -> Chk {
        let hard = hard_in(t, 0, t.evs.len());
        // who was started, in order
        let spawns: Vec<(usize, &Spawn)> = t.evs.iter().enumerate().filter_map(|(i, e)| if let Ev::Spawn(s) = e { Some((i, s)) } else { None }).collect();
        for (i, (at, s)) in spawns.iter().enumerate() {
            let show = || s.argv.iter().map(|a| short(a)).collect::<Vec<_>>().join(" ");
            let Some(p) = x.procs.get(i) else {
                return bad("extra-start", format!("process number {} ({}) was started although the script starts only {}", i + 1, show(), x.procs.len()));
            };
            let argv: Vec<Vec<u8>> = p.argv.iter().map(|a| a.clone().into_bytes()).collect();
            if s.argv != argv {
                return bad("argv", format!("process number {} was started as {:?}, expected {:?}", i + 1, s.argv.iter().map(|a| short(a)).collect::<Vec<_>>(), p.argv.iter().map(|a| short(a.as_bytes())).collect::<Vec<_>>()));
            }
            if s.file != p.argv[0].as_bytes() {
                return bad("argv", format!("the program file is {:?}, expected {:?}", lossy(&s.file), p.argv[0]));
            }
            if s.cwd.as_deref() != Some(p.cwd.as_bytes()) {
                return bad("cwd", format!("{} was started in {:?}, expected {:?}", show(), s.cwd.as_ref().map(|c| lossy(c)), p.cwd));
            }
            let mut env: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
            for e in &s.env {
                let k = e.iter().position(|c| *c == b'=').unwrap_or(e.len());
                if e.starts_with(b"vv") {
                    env.insert(e[..k].to_vec(), e[k + 1..].to_vec());
                }
                if e.starts_with(b"CWD=") && e[4..] != *p.cwd.as_bytes() {
                    return bad("env", format!("{}: CWD is {:?} in the environment, expected {:?}", show(), lossy(&e[4..]), p.cwd));
                }
            }
            let want: BTreeMap<Vec<u8>, Vec<u8>> = p.env.iter().filter(|(_, v)| !v.contains('\0')).map(|(k, v)| (format!("vv{}", k).into_bytes(), v.clone().into_bytes())).collect();
            if p.exact {
                for (k, v) in &want {
                    match env.get(k) {
                        Some(g) if g == v => (),
                        g => return bad("env", format!("{}: variable {} is {:?} in the environment, expected {:?}", show(), lossy(k), g.map(|x| short(x)), short(v))),
                    }
                }
            } else {
                for (k, v) in &env {
                    if let Some(w) = want.get(k) {
                        if w != v && std::str::from_utf8(v).is_ok() && !v.starts_with(b"b[") {
                            return bad("env", format!("{}: variable {} is {:?} in the environment, expected {:?}", show(), lossy(k), short(v), short(w)));
                        }
                    }
                }
            }
            let own = [s.fds[0].1 == 1, s.fds[1].1 == 2, s.fds[2].1 == 3];
            if own[0] == p.piped_in || own[1] == p.piped_out || !own[2] {
                return bad("streams", format!("{}: streams {:?}; expected input {}, output {}", show(), s.fds, if p.piped_in { "from the previous stage" } else { "the shell's" }, if p.piped_out { "to the next stage" } else { "the shell's" }));
            }
            // its life
            let (mut read, mut eof, mut exit) = (vec![], false, None);
            let mut nextspawn = None;
            for (j, e) in t.evs.iter().enumerate().skip(*at + 1) {
                match e {
                    Ev::Read { pid, data } if *pid == s.pid => match data {
                        Some(d) => read.extend_from_slice(d),
                        None => eof = true,
                    },
                    Ev::Exit { pid, status, .. } if *pid == s.pid => exit = Some((j, *status)),
                    Ev::Spawn(_) if nextspawn.is_none() => nextspawn = Some(j),
                    _ => (),
                }
            }
            let _ = eof;
            let Some((ej, status)) = exit else {
                return bad("left-running", format!("{} was still running when the shell ended", show()));
            };
            if read != p.read {
                return bad("stage-input", format!("{} was given other input than the previous stage's output: read {} bytes {}, expected {} bytes {}", show(), read.len(), short(&read), p.read.len(), short(&p.read)));
            }
            if status != p.status {
                return bad("status", format!("{} ended with wait status {:#x}, expected {:#x}", show(), status, p.status));
            }
            if p.launch && nextspawn.map_or(false, |j| j < ej) {
                return bad("no-wait", format!("the shell went on before {} had finished", show()));
            }
            // the mark printed after its statement comes after its end
            let next = x.procs.iter().enumerate().find(|(k, q)| *k > i && q.stmt > p.stmt).map(|(k, _)| k);
            if let Some(k) = next {
                if spawns.get(k).map_or(false, |q| q.0 < ej) {
                    return bad("no-wait", format!("the next statement started before {} had finished", show()));
                }
            }
            let m = format!(" @@{}\n", p.stmt);
            let mark = t.evs.iter().position(|e| matches!(e, Ev::Out { ofd: 2, pid: 0, data } if data.ends_with(m.as_bytes())));
            if mark.map_or(false, |j| j < ej) {
                return bad("no-wait", format!("the shell went on before {} had finished", show()));
            }
            // every end is collected
            if !t.evs.iter().any(|e| matches!(e, Ev::Sys { cls, name, ret, .. } if *cls == C_WAIT && name == "waitpid" && *ret == s.pid as i64)) {
                return bad("unreaped", format!("{} was never waited for", show()));
            }
            let err = t.out(3, s.pid);
            if err != p.err {
                return bad("stderr", format!("{}: standard error of the program: {} expected {}", show(), short(&err), short(&p.err)));
            }
        }
        if spawns.len() < x.procs.len() {
            let p = &x.procs[spawns.len()];
            return bad("not-started", format!("{} was never started", p.argv.iter().map(|a| short(a.as_bytes())).collect::<Vec<_>>().join(" ")));
        }
        let end = t.end().unwrap();
        let out = if self.outfile { t.file(end, "/home/u/out").map(|x| x.to_vec()).unwrap_or_default() } else { t.out(2, -1) };
        if out != x.out {
            let k = out.iter().zip(&x.out).take_while(|a| a.0 == a.1).count();
            let from = k.saturating_sub(30);
            let cut = |b: &[u8]| short(&b[from.min(b.len())..(k + 60).min(b.len())]);
            return bad("output", format!("at byte {}: got ...{} expected ...{} (lengths {} and {})", k, cut(&out), cut(&x.out), out.len(), x.out.len()));
        }
        let log = t.file(end, "/home/u/log").unwrap_or(b"");
        if log != x.log.as_bytes() {
            return bad("effects", format!("the programs' own log holds {}, expected {}", short(log), short(x.log.as_bytes())));
        }
        for (k, s) in self.sts.iter().enumerate() {
            let mut names = vec![format!("/home/u/w{}", k)];
            if let St::Pipe(v, _) = s {
                for q in v {
                    if let Stg::F(2 | 8, n) = q {
                        names.push(format!("/home/u/r{}", n));
                    }
                }
            }
            for n in names {
                let got = t.file(end, &n).map(|x| x.to_vec());
                if got.as_ref() != x.files.get(&n) {
                    return bad("stage-value", format!("{} holds {:?}, expected {:?}", n, got.map(|b| (b.len(), short(&b))), x.files.get(&n).map(|b| (b.len(), short(b)))));
                }
            }
        }
        if !t.zombies.is_empty() {
            return bad("zombie", format!("children left behind: {:?}", t.zombies));
        }
        if t.leaks.iter().any(|l| l.contains("kind 3") || l.contains("kind 4")) {
            return bad("leak", format!("pipe ends left open: {:?}", t.leaks));
        }
        let err = lossy(&t.out(3, 0));
        if x.errs == 0 && !err.trim().is_empty() && !hard {
            return bad("stderr", format!("nothing failed, yet standard error holds {}", short(err.as_bytes())));
        }
        if x.errs > 0 && err.trim().is_empty() {
            return bad("stderr", "the error was not reported on standard error");
        }
        for s in &x.says {
            if !err.contains(s) {
                return bad("stderr", format!("standard error does not name what failed ({:?}): {}", s, short(err.as_bytes())));
            }
        }
        let _ = keep;
        Ok(())
    }
}

impl Case for ExecCase {
    fn nops(&self) -> usize {
        self.sts.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        s.script(&self.text(keep));
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = self.text(keep);
        for (i, p) in self.progs.iter().enumerate() {
            if o.contains(&format!("p{}", i)) {
                let _ = write!(o, "p{}: {:?}{} {}\n", i, p.bin, if p.tools { " in tools" } else { "" }, ops_text(&p.ops, i, true));
            }
        }
        o
    }
    fn check(&self, keep: &[bool], _m: &Mods, t: &Trace) -> Chk {
        let (x, ok) = self.model(keep, None);
        if !ok {
            return Ok(());
        }
        if t.how != "exit" {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        let r = self.judge(keep, &x, t);
        if r.is_ok() || !hard_in(t, 0, t.evs.len()) {
            return r;
        }
        if (1..20).any(|c| !matches!(c, C_SPAWN | C_PIPE | C_THREAD) && hard_cls(t, 0, t.evs.len(), c)) {
            // the fault met another call than it was meant for: only what holds in any case
            if !t.zombies.is_empty() {
                return bad("zombie", format!("children left behind: {:?}", t.zombies));
            }
            return Ok(());
        }
        for at in 0..x.nprim + 2 {
            for (kind, code) in [(0, 9), (0, 3), (0, 6), (0, 7), (1, 9)] {
                let (y, ok) = self.model(keep, Some(Cand { at, kind, code }));
                if ok && y.hit {
                    match self.judge(keep, &y, t) {
                        Ok(()) => return Ok(()),
                        Err(e) if std::env::var("ORCH_CAND").is_ok() => eprintln!("failed start {} kind {} code {}: {}", at, kind, code, e.msg),
                        _ => (),
                    }
                }
            }
        }
        let Err(v) = r else { return Ok(()) };
        bad(&format!("fault-{}", v.kind), format!("with a failing system call, and not explained by one failed start: {}", v.msg))
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let mut v = vec![];
        let hard: Vec<&Point> = pts.iter().filter(|p| matches!(p.cls, C_SPAWN | C_PIPE | C_THREAD) && p.name != "pthread_join").collect();
        let waits: Vec<&Point> = pts.iter().filter(|p| p.cls == C_WAIT).collect();
        for _ in 0..budget / 4 {
            if hard.is_empty() {
                break;
            }
            let p = *r.pick(&hard);
            let e: Vec<i64> = legal_errs(p.cls, &p.path).into_iter().filter(|x| *x != EINTR).collect();
            if !e.is_empty() {
                let mut m = fault(p.seq, FaultKind::Errno(*r.pick(&e)));
                if r.chance(1, 3) {
                    m.knobs.insert("chunk", if self.big { 1 } else { 2 });
                }
                v.push(m);
            }
        }
        for _ in 0..budget / 8 {
            if waits.is_empty() {
                break;
            }
            let mut m = Mods::default();
            for _ in 0..1 + r.n(2) {
                m.faults.push(FaultSpec { seq: r.pick(&waits).seq, kind: FaultKind::Errno(EINTR) });
            }
            m.faults.dedup_by_key(|f| f.seq);
            v.push(m);
        }
        while v.len() < budget {
            let mut m = soft(r);
            if self.big && m.knobs.contains_key("chunk") {
                // single bytes would take too many steps
                m.knobs.insert("chunk", 1);
            }
            if r.chance(1, 3) {
                m.knobs.insert("pipecap", *r.pick(if self.big { &[512, 4096, 65536, 4095, 1000] } else { &[1, 16, 512, 4096, 65536] }));
            }
            if r.chance(1, 3) && !pts.is_empty() {
                m.sigs.push((r.pick(&pts).seq, *r.pick(&[17, 28, 18])));
            }
            if r.chance(1, 6) && !pts.is_empty() {
                m.jumpseq.push((r.pick(&pts).seq, *r.pick(&[3_600_000_000_000, -3_600_000_000_000])));
            }
            v.push(m);
        }
        v
    }
}
fn ops_text(ops: &[PO], id: usize, brief: bool) -> String {
    let mut o = String::new();
    for p in ops {
        let _ = match p {
            PO::Out(b) => write!(o, "out {} ", if brief { short(b) } else { hex(b) }),
            PO::Err(b) => write!(o, "err {} ", if brief { short(b) } else { hex(b) }),
            PO::Gen(n, s) => write!(o, "gen {} {} ", n, s),
            PO::Cat => write!(o, "cat "),
            PO::Head(n) => write!(o, "head {} ", n),
            PO::Line => write!(o, "line "),
            PO::Sink => write!(o, "sink "),
            PO::Count => write!(o, "count "),
            PO::Xor(k) => write!(o, "xor {} ", k),
            PO::Sleep(n) => write!(o, "sleep {} ", n),
            PO::App => write!(o, "app /home/u/log {} ", hex(format!("<{}>", id).as_bytes())),
            PO::CloseIn => write!(o, "closein "),
            PO::CloseOut => write!(o, "closeout "),
            PO::Yield => write!(o, "yield "),
            PO::Exit(n) => write!(o, "exit {} ", n),
            PO::Die(n) => write!(o, "die {} ", n),
        };
    }
    o
}

struct G {
    r: Rng,
    prop: String,
    progs: Vec<Prog>,
    next: u32,
    vars: Vec<u32>,
    big: bool,
}
const STRS: &[&str] = &["a", "", " ", "two words", "x=y", "-n", "--", "*", "$HOME", "q\"uote", "it's", "back\\slash", "ünï→✓", "line\nbreak", "tab\there", "~", "a;b|c", "{}", "None", "0", "(x)", "#c", "é", "trailing "];
impl G {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn size(&mut self) -> usize {
        match self.r.n(if self.big { 9 } else { 6 }) {
            0 => 0,
            1 => 1 + self.r.n(20),
            2 => 4094 + self.r.n(5),
            3 => 1 + self.r.n(3000),
            4 => 8190 + self.r.n(5),
            5 => 500,
            6 => 65534 + self.r.n(6),
            7 => 70000 + self.r.n(30000),
            _ => 131070 + self.r.n(6),
        }
    }
    fn ops(&mut self, reader: bool) -> Vec<PO> {
        let mut v = vec![];
        let noise = |g: &mut G, v: &mut Vec<PO>| match g.r.n(8) {
            0 => v.push(PO::Sleep(1 + g.r.n(50) as u64)),
            1 => v.push(PO::Yield),
            2 => v.push(PO::Err(format!("e{}\n", g.next).into_bytes())),
            _ => (),
        };
        if self.r.chance(2, 3) {
            v.push(PO::App);
        }
        noise(self, &mut v);
        if reader {
            for _ in 0..1 + self.r.n(2) {
                let o = match self.r.n(if self.prop == "C12" { 14 } else { 9 }) {
                    0 | 1 => PO::Cat,
                    2 => PO::Xor(*self.r.pick(&[1, 0x80, 0xff, 0x20])),
                    3 => PO::Count,
                    4 => PO::Head(self.r.n(40)),
                    5 => PO::Line,
                    6 => PO::Cat,
                    7 => PO::Out(format!("pre{}.", self.next).into_bytes()),
                    8 => PO::Sink,
                    9 => PO::CloseIn,
                    10 => PO::Head(self.r.n(5000)),
                    11 => {
                        let n = self.size();
                        PO::Gen(n, self.r.n(100) as u64)
                    }
                    12 => PO::CloseOut,
                    _ => PO::Sleep(3),
                };
                v.push(o);
                noise(self, &mut v);
            }
        } else {
            match self.r.n(4) {
                0 => v.push(PO::Out(self.r.pick(&STRS).as_bytes().to_vec())),
                1 => v.push(PO::Out(vec![0xff, 0x00, 0xc3, 0x28, b'\n'])),
                _ => {
                    let n = self.size();
                    let m = self.r.n(200) as u64;
                    v.push(PO::Gen(n, m));
                }
            }
            noise(self, &mut v);
            if self.r.chance(1, 4) {
                let t = format!("end{}\n", self.next);
                v.push(PO::Out(t.into_bytes()));
            }
        }
        match self.r.n(7) {
            0 => v.push(PO::Exit(*self.r.pick(&[1, 2, 127, 255]))),
            1 => v.push(PO::Die(*self.r.pick(&[15, 9, 11, 13, 2]))),
            2 => v.insert(0, PO::Sleep(5)),
            _ => (),
        }
        v
    }
    fn arg(&mut self, d: usize) -> Arg {
        match self.r.n(if d > 0 { 11 } else { 8 }) {
            0 | 1 | 2 => Arg::S(self.r.pick(STRS).to_string()),
            3 => Arg::I(self.r.range(0, 100000)),
            4 => Arg::F(*self.r.pick(&["1.5", "0.25", "1024.125"])),
            5 => Arg::B(self.r.chance(1, 2)),
            6 => match self.vars.is_empty() {
                true => Arg::S("nv".into()),
                false => Arg::V(*self.r.pick(&self.vars.clone())),
            },
            7 => {
                if self.r.chance(1, 6) {
                    Arg::Rep(b'z', *self.r.pick(&[1000, 131070, 131071, 131072, 140000]))
                } else {
                    Arg::Sum(self.r.range(0, 50), self.r.range(0, 50))
                }
            }
            8 => Arg::None,
            _ => Arg::L((0..self.r.n(4)).map(|_| self.arg(d - 1)).collect()),
        }
    }
    fn cmd(&mut self, reader: bool, pipe: bool, last: bool) -> Cmd {
        let failing = match &self.prop[..] {
            "C12" => self.r.chance(1, if last { 7 } else { 14 }),
            "C11" => self.r.chance(1, 40),
            _ => self.r.chance(1, 6),
        };
        let bin = if failing { *self.r.pick(&[Bin::Missing, Bin::NoExec, Bin::Garbage, Bin::Dir]) } else { Bin::Ok };
        let mut ops = self.ops(reader);
        if !pipe && self.big {
            // a launch writes to the shell's own output
            for o in ops.iter_mut() {
                if let PO::Gen(n, _) = o {
                    *n = (*n).min(5000);
                }
            }
        }
        let tools = bin == Bin::Ok && self.r.chance(1, 12);
        self.progs.push(Prog { ops, bin, tools });
        let prog = self.progs.len() - 1;
        let n = if pipe { self.r.n(3) } else { 1 + self.r.n(4) };
        let mut args: Vec<Arg> = (0..n).map(|_| self.arg(if pipe { 0 } else { 2 })).collect();
        let form = if self.r.chance(1, 4) { 4 + self.r.n(if pipe { 4 } else { 1 }) } else { self.r.n(4) } as u8;
        if args.is_empty() && (matches!(form, 1 | 2 | 4 | 7) || tools || !pipe) {
            // a name alone, or a string alone, is a value
            args.push(Arg::S("alone".into()));
        }
        Cmd { prog, form, args }
    }
    fn fstage(&mut self, prev_text: bool, last: bool, failing: bool) -> (Stg, bool) {
        loop {
            let k = *self.r.pick(&[0u8, 1, 1, 2, 2, 3, 4, 5, 9, 10, 6, 7, 8, 11, 12, 13]);
            if matches!(k, 6 | 7) && !failing || matches!(k, 1 | 9) && !prev_text || matches!(k, 4 | 5 | 8 | 12 | 13) && last {
                continue;
            }
            if k == 10 && !self.big {
                continue;
            }
            let text = match k {
                0 | 2 => prev_text,
                4 | 5 | 8 | 12 | 13 => false,
                _ => true,
            };
            let n = self.id();
            return (Stg::F(k, n), text);
        }
    }
    fn pipe(&mut self) -> (Vec<Stg>, bool) {
        let n = 2 + self.r.n(4);
        let mut v = vec![];
        // whether the value so far is known to be text, or text or bytes
        let mut text = false;
        let mut tb = false;
        let mut lastf = false;
        for i in 0..n {
            let last = i + 1 == n;
            if i == 0 {
                if self.r.chance(1, 2) {
                    let k = self.r.n(6) as u8;
                    if k == 3 && !self.big {
                        continue;
                    }
                    let id = self.id();
                    v.push(Stg::Val(k, id));
                    text = k != 1 && k != 2;
                    tb = k != 1;
                } else {
                    let rd = self.r.chance(1, 5);
                    let c = self.cmd(rd, true, false);
                    v.push(Stg::C(c));
                    // whether text comes out is for the model to say
                    text = false;
                    tb = true;
                }
                continue;
            }
            if v.is_empty() {
                let id = self.id();
                v.push(Stg::Val(0, id));
                text = true;
                tb = true;
            }
            if self.r.chance(2, 5) {
                if self.r.chance(1, 7) && tb {
                    let id = self.id();
                    let mut c = self.cmd(false, false, false);
                    if self.r.chance(1, 2) && text {
                        c.args.push(Arg::V(id));
                    }
                    // names inside a function are only seen when mentioned there
                    v.push(Stg::FC(c, id));
                } else {
                    let f = self.prop == "C12" && self.r.chance(1, 4);
                    let (s, t) = self.fstage(text, last, f);
                    if let Stg::F(2 | 8, _) = s {
                        if !tb {
                            continue;
                        }
                    }
                    tb = match s {
                        Stg::F(5 | 8 | 12 | 13, _) => false,
                        Stg::F(0 | 2, _) => tb,
                        _ => true,
                    };
                    text = t;
                    v.push(s);
                }
                lastf = true;
            } else {
                let c = self.cmd(true, true, last);
                v.push(Stg::C(c));
                text = false;
                tb = true;
                lastf = false;
            }
        }
        if v.len() < 2 {
            let id = self.id();
            v.push(Stg::F(0, id));
        }
        (v, lastf && tb)
    }
}
pub fn make(prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    for attempt in 0..60 {
        let c = make1(prop, seed.wrapping_add(attempt << 40), thorough);
        let keep = vec![true; c.sts.len()];
        let (x, ok) = c.model(&keep, None);
        if ok && x.procs.len() > 1 && x.procs.len() < 60 {
            return Box::new(c);
        }
    }
    panic!("no workload for seed {}", seed)
}
fn make1(prop: &str, seed: u64, thorough: bool) -> ExecCase {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.envprefix = "vv".into();
    s.file("/home/u/log", b"");
    s.file("/home/u/bin0", BIN0);
    s.file("/home/u/txt0", &ascii(70000));
    s.dir("/home/u/tools");
    s.dir("/home/u/sub dir");
    let mut g = G { r: r.fork(), prop: prop.into(), progs: vec![], next: 0, vars: vec![], big: prop == "C12" || thorough || r.chance(1, 4) };
    let n = match prop {
        "C10" => 4 + r.n(6),
        _ => 2 + r.n(if thorough { 5 } else { 3 }),
    };
    let mut sts = vec![];
    for _ in 0..n {
        if r.chance(1, 4) {
            let k = if g.vars.is_empty() || r.chance(2, 3) {
                let k = g.id();
                g.vars.push(k);
                k
            } else {
                *r.pick(&g.vars)
            };
            let v = match r.n(8) {
                0 => "L".repeat(1024),
                1 => "M".repeat(1030),
                _ => r.pick(STRS).to_string(),
            };
            sts.push(St::Let(k, v));
        }
        if r.chance(1, 6) {
            sts.push(St::Cd(r.pick(&["/home/u", "/tmp", "/home/u/sub dir", "/"]).to_string()));
        }
        if prop == "C10" && r.chance(4, 5) {
            let rd = r.chance(1, 3);
            let c = g.cmd(rd, false, false);
            sts.push(St::Launch(c, r.n(7) as u8));
        } else {
            let (v, valued) = g.pipe();
            let mut ctx = *r.pick(&[0u8, 0, 1, 4, 5]);
            if valued && r.chance(3, 4) {
                ctx = *r.pick(&[2, 3]);
            }
            if ctx == 1 && v.iter().any(|x| matches!(x, Stg::C(c) | Stg::FC(c, _) if c.args.iter().any(|a| matches!(a, Arg::V(_))))) {
                ctx = 0;
            }
            sts.push(St::Pipe(v, ctx));
        }
    }
    for (i, p) in g.progs.iter().enumerate() {
        let path = if p.tools { format!("/home/u/tools/p{}", i) } else { format!("/bin/p{}", i) };
        let ops = ops_text(&p.ops, i, false);
        match p.bin {
            Bin::Ok => s.fs.push(Init::File(path.into_bytes(), 0o755, format!("#!sim {}", ops).into_bytes())),
            Bin::NoExec => s.fs.push(Init::File(path.into_bytes(), 0o644, format!("#!sim {}", ops).into_bytes())),
            Bin::Garbage => s.fs.push(Init::File(path.into_bytes(), 0o755, b"garbage program".to_vec())),
            Bin::Dir => s.dir(&path),
            Bin::Missing => (),
        }
        // the current directory is not searched for programs
        if !p.tools && r.chance(1, 4) {
            for d in ["/home/u", "/tmp", "/home/u/sub dir"] {
                if r.chance(1, 2) {
                    s.fs.push(Init::File(format!("{}/p{}", d, i).into_bytes(), 0o755, b"#!sim out 6465636f79 exit 0".to_vec()));
                }
            }
        }
    }
    let input = if r.chance(1, 2) {
        let b = match r.n(3) {
            0 => b"first line\nsecond line\nthird".to_vec(),
            1 => ascii(9000),
            _ => BIN0.to_vec(),
        };
        s.stdin = format!("source {}", hex(&b));
        b
    } else {
        vec![]
    };
    let outfile = r.chance(1, 6);
    if outfile {
        s.stdout = "file /home/u/out".into();
        s.file("/home/u/out", b"");
    }
    if r.chance(1, 2) {
        s.knob("chunk", if g.big { 1 } else { 1 + r.n(2) as i64 });
    }
    if r.chance(1, 2) {
        s.knob("pipecap", *r.pick(if g.big { &[512, 700, 1024, 4096] } else { &[1, 16, 512, 4096] }));
    }
    if r.chance(1, 3) {
        s.knob("stick", *r.pick(&[0, 100, 500]));
    }
    ExecCase { prop: prop.into(), base: s, progs: g.progs, sts, wrapped: r.chance(1, 2), input, outfile, big: g.big }
}
