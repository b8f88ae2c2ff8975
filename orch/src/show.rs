//! Engine H: values shown at every size of the terminal (C30).
use crate::base::*;
use crate::runner::*;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
enum V {
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    None,
    List(Vec<V>),
    /// in the order of the keys, at least one
    Map(Vec<(String, V)>),
}
#[derive(Clone, Debug)]
enum Op {
    /// println, echo, print, report: with these values
    Show(usize, Vec<V>),
    Debug(V),
    /// bind first, then show
    Bound(V),
    Sleep(i64),
    /// an entered value that has one part which cannot be evaluated
    Fails(V),
}
const HOW: &[&str] = &["println", "echo", "print", "report"];
struct ShowCase {
    base: Scen,
    ops: Vec<Op>,
    /// 0 script, 1 lines from a pipe, 2 lines typed at a terminal
    mode: u8,
    wins: Vec<(i64, u16, u16)>,
}
impl V {
    fn lit(&self) -> String {
        match self {
            V::Int(i) => i.to_string(),
            V::Float(f) => format!("{:?}", f),
            V::Bool(b) => if *b { "True".into() } else { "False".into() },
            V::Str(s) => dstr(s),
            V::None => "None".into(),
            V::List(v) => format!("[{}]", v.iter().map(|x| x.lit()).collect::<Vec<_>>().join(", ")),
            V::Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{} = {}", k, x.lit())).collect::<Vec<_>>().join(", ")),
        }
    }
    /// in one line, as `debug` prints it
    fn flat(&self) -> String {
        match self {
            V::Float(f) => format!("{}", f),
            V::Str(s) => format!("{:?}", s),
            V::List(v) => format!("[{}]", v.iter().map(|x| x.flat()).collect::<Vec<_>>().join(", ")),
            V::Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}: {}", k, x.flat())).collect::<Vec<_>>().join(", ")),
            x => x.lit(),
        }
    }
    fn table(&self) -> bool {
        matches!(self, V::List(_) | V::Map(_))
    }
    /// a list as the value of a key is folded to the width left for it, frame and all
    fn folds(&self) -> bool {
        match self {
            V::List(v) => v.iter().any(|x| x.folds()),
            V::Map(v) => v.iter().any(|(_, x)| x.folds() || matches!(x, V::List(_))),
            _ => false,
        }
    }
    fn chars(&self, top: bool, o: &mut Vec<char>) {
        match self {
            V::List(v) => v.iter().for_each(|x| x.chars(false, o)),
            V::Map(v) => v.iter().for_each(|(k, x)| {
                o.extend(k.chars());
                x.chars(false, o)
            }),
            V::Str(s) if top => o.extend(s.chars()),
            x => o.extend(x.flat().chars()),
        }
    }
}
fn frame(c: char) -> bool {
    ('\u{2500}'..='\u{257f}').contains(&c)
}
/// what counts when a value may be shown as a table or in one line
fn essence(s: impl Iterator<Item = char>) -> Vec<char> {
    let mut v: Vec<char> = s.filter(|c| !frame(*c) && !c.is_whitespace() && !"[]{},:\"".contains(*c)).collect();
    v.sort();
    v
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != FILL).collect()
}
const FILL: char = '\u{1}';
/// a line as the columns of a terminal
fn columns(l: &str) -> Vec<char> {
    let mut v = vec![];
    for c in l.chars() {
        v.push(c);
        if "日本語".contains(c) {
            v.push(FILL);
        }
    }
    v
}
type Grid = Vec<Vec<char>>;
fn text(g: &Grid) -> String {
    g.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
}
fn blank(l: &[char]) -> bool {
    l.iter().all(|c| *c == ' ')
}
/// The cells of the table that starts at the first line; None when there is none.
fn cells(g: &Grid) -> Option<Vec<Vec<Grid>>> {
    let off = g[0].iter().position(|c| *c != ' ')?;
    let border = |l: &[char]| l.len() > off && blank(&l[..off]) && l[off..].iter().rev().skip_while(|c| **c == ' ').all(|c| frame(*c));
    if !border(&g[0]) {
        return None;
    }
    let at: Vec<usize> = (off..g[0].len()).filter(|i| frame(g[0][*i]) && !"━═─".contains(g[0][*i])).collect();
    let mut rows = vec![];
    let mut cur: Vec<Grid> = vec![];
    let mut ended = false;
    for l in &g[1..] {
        if blank(l) && ended {
            continue;
        }
        if ended && !border(l) && cur.is_empty() && !(l.len() > off && frame(l[off])) {
            return None;
        }
        if border(l) {
            rows.push(std::mem::take(&mut cur));
            ended = true;
            continue;
        }
        if cur.is_empty() {
            cur = vec![vec![]; at.len() - 1];
        }
        for k in 0..at.len() - 1 {
            if l.len() <= at[k + 1] || !frame(l[at[k]]) || !frame(l[at[k + 1]]) {
                return None;
            }
            cur[k].push(l[at[k] + 1..at[k + 1]].to_vec());
        }
    }
    if !cur.is_empty() || rows.is_empty() {
        return None;
    }
    Some(rows)
}
/// Whether this is how the value may look.
fn same(v: &V, g: &Grid, top: bool) -> Result<(), String> {
    let mut g: Grid = g.clone();
    while g.last().map_or(false, |l| blank(l)) {
        g.pop();
    }
    while g.first().map_or(false, |l| blank(l)) {
        g.remove(0);
    }
    let s = squeeze(&text(&g));
    if s == squeeze(&v.flat()) {
        return Ok(());
    }
    let no = || Err(format!("{} is shown as {:?}", v.flat(), short(text(&g).as_bytes())));
    match v {
        V::Str(x) if top => if s == squeeze(x) { Ok(()) } else { no() },
        V::List(l) if l.is_empty() => if s.chars().all(frame) { Ok(()) } else { no() },
        V::List(_) | V::Map(_) => {
            if g.is_empty() {
                return no();
            }
            let inner = match (cells(&g), v) {
                (Some(rows), V::List(l)) if rows.len() == 1 && rows[0].len() == l.len() => l.iter().zip(&rows[0]).try_for_each(|(x, c)| same(x, c, false)),
                (Some(rows), V::Map(m)) if rows.len() == m.len() => m.iter().zip(&rows).try_for_each(|((k, x), c)| {
                    if c.len() < 2 || squeeze(&text(&c[0])) != squeeze(k) {
                        return no();
                    }
                    same(x, &c[1], false)
                }),
                _ => no(),
            };
            if inner.is_err() && v.folds() {
                let mut want = vec![];
                v.chars(top, &mut want);
                if essence(want.into_iter()) == essence(s.chars()) {
                    return Ok(());
                }
            }
            inner
        }
        _ => no(),
    }
}
impl ShowCase {
    fn stmt(&self, k: usize) -> String {
        let vals = |v: &[V]| v.iter().map(|x| x.lit()).collect::<Vec<_>>().join(" ");
        match &self.ops[k] {
            Op::Show(h, v) => format!("{} {}", HOW[*h], vals(v)),
            Op::Debug(v) => format!("debug {}", v.lit()),
            Op::Bound(v) if self.mode == 0 => format!("let v{} = {}; println v{}", k, v.lit(), k),
            Op::Bound(v) => v.lit(),
            Op::Sleep(ms) => format!("time@sleep {}", ms),
            Op::Fails(v) => format!("err@try (println [{}, (nosuchprog9 1)]) (e -> print \"failed\")", v.lit()),
        }
    }
    fn line(&self, k: usize) -> String {
        // in a session what a line gives is shown
        format!("println \"<<\" {} \">>\"; {}", k, self.stmt(k))
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut s = String::new();
        for k in 0..self.ops.len() {
            if keep[k] {
                let _ = writeln!(s, "{}{}", self.line(k), if self.mode == 0 { ";" } else { "" });
            }
        }
        let _ = writeln!(s, "println \"<<\" 999 \">>\"{}", if self.mode == 0 { ";" } else { "" });
        s
    }
}
impl Case for ShowCase {
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        let t = self.text(keep);
        match self.mode {
            0 => s.script(&t),
            1 => s.stdin = format!("source {}", hex(t.as_bytes())),
            _ => {
                for l in t.lines() {
                    s.user.push(("r".into(), 1_000_000, Act::Keys(format!("{}\r", l).into_bytes())));
                }
                s.user.push(("r".into(), 1_000_000, Act::Keys(vec![4])));
            }
        }
        for (d, a, b) in &self.wins {
            if self.mode != 2 {
                s.user.push(("n".into(), *d, Act::Win(*a, *b)));
            }
        }
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        format!("{}, standard output {}, window {:?}, then {:?}\n{}", ["a script", "lines from a pipe", "at a terminal"][self.mode as usize], self.base.stdout, self.base.winsize, self.wins, self.text(keep))
    }
    fn check(&self, keep: &[bool], _m: &Mods, t: &Trace) -> Chk {
        let out = String::from_utf8_lossy(&t.out(2, 0)).into_owned();
        let hard = hard_in(t, 0, t.evs.len());
        if t.how != "exit" || t.code.contains("101") {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        if hard && !hard_only_ctl(t) {
            return Ok(());
        }
        let ks: Vec<usize> = (0..self.ops.len()).filter(|k| keep[*k]).chain([999]).collect();
        let mut from = 0;
        for (n, k) in ks.iter().enumerate() {
            let m = format!("<< {} >>\n", k);
            let Some(p) = out[from..].find(&m) else {
                return bad("lost", format!("the line before value {} was not printed; standard error: {}", k, short(&t.out(3, 0))));
            };
            from += p + m.len();
            if *k == 999 {
                break;
            }
            let rest = &out[from..];
            let seg = match self.mode {
                2 => &rest[..rest.find(|c| c == '\r' || c == '\x1b').unwrap_or(rest.len())],
                _ => &rest[..rest.find(&format!("<< {} >>\n", ks[n + 1])).unwrap_or(rest.len())],
            };
            self.one(*k, seg)?;
        }
        if t.code.trim() != "0" || !t.out(3, 0).is_empty() {
            return bad("stderr", format!("the shell ended with {}; standard error: {}", t.code, short(&t.out(3, 0))));
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let ctl: Vec<&Point> = pts.iter().filter(|p| p.cls == C_TTYCTL && p.name.contains("winsz")).collect();
        let mut v = vec![];
        while v.len() < budget {
            let mut m = if r.chance(1, 2) { soft(r) } else { Mods::default() };
            if self.mode < 2 && !ctl.is_empty() && r.chance(1, 2) {
                for _ in 0..1 + r.n(3) {
                    m.faults.extend(fault(ctl[r.n(ctl.len())].seq, FaultKind::Errno(EIO)).faults);
                }
            }
            for _ in 0..r.n(4) {
                m.sigs.push((pts[r.n(pts.len())].seq + r.n(2) as u64, *r.pick(if self.mode < 2 { &[17, 18, 28] } else { &[17, 18] })));
            }
            if m == Mods::default() {
                m.knobs.insert("fshort", 500);
                m.reseed = Some(r.next() >> 1);
            }
            v.push(m);
        }
        v
    }
}
/// whether no call but a question to the terminal was refused
fn hard_only_ctl(t: &Trace) -> bool {
    t.evs.iter().enumerate().all(|(i, e)| match e {
        Ev::Fault { seq, kind, val, .. } if kind == "errno" && *val != EINTR => t.evs[i..].iter().any(|e| matches!(e, Ev::Sys { seq: s, cls, .. } if s == seq && *cls == C_TTYCTL)),
        _ => true,
    })
}
impl ShowCase {
    fn one(&self, k: usize, seg: &str) -> Chk {
        let what = self.stmt(k);
        let wrong = |m: String| bad("shown", format!("{}: {}", short(what.as_bytes()), m));
        let (h, v) = match &self.ops[k] {
            Op::Sleep(_) => return if seg.is_empty() { Ok(()) } else { wrong(format!("printed {:?}", seg)) },
            Op::Fails(_) => return if seg == "failed" { Ok(()) } else { wrong(format!("a list with a part that cannot be evaluated printed {:?}", seg)) },
            Op::Debug(v) => {
                return if seg == format!("{}\n", v.flat()) { Ok(()) } else { wrong(format!("printed {}", short(seg.as_bytes()))) };
            }
            Op::Show(h, v) => (HOW[*h], v.clone()),
            Op::Bound(v) => (if self.mode == 0 { "println" } else { "report" }, vec![v.clone()]),
        };
        // plain values exactly
        if v.iter().all(|x| !x.table()) {
            if h == "report" && v[0] == V::None {
                return if seg.is_empty() { Ok(()) } else { wrong(format!("printed {:?}", seg)) };
            }
            let w = v.iter().map(|x| if let V::Str(s) = x { s.clone() } else { x.flat() }).collect::<Vec<_>>().join(" ") + if h == "print" { "" } else { "\n" };
            return if seg == w { Ok(()) } else { wrong(format!("printed {}", short(seg.as_bytes()))) };
        }
        if h != "print" && !seg.ends_with('\n') {
            return wrong(format!("what was printed does not end its line: {}", short(seg.as_bytes())));
        }
        if v.len() == 1 {
            let g: Grid = seg.lines().map(columns).collect();
            return match same(&v[0], &g, true) {
                Ok(()) => Ok(()),
                Err(m) => wrong(m),
            };
        }
        let mut want = vec![];
        v.iter().for_each(|x| x.chars(true, &mut want));
        if essence(want.into_iter()) != essence(seg.chars()) {
            return wrong(format!("printed {}", short(seg.as_bytes())));
        }
        Ok(())
    }
}
fn key(r: &mut Rng) -> String {
    let n = match r.n(12) {
        0..=6 => 1 + r.n(4),
        7..=9 => 1 + r.n(25),
        10 => 20 + r.n(70),
        _ => 100 + r.n(100),
    };
    let mut s = String::from(*r.pick(&["a", "k", "Q", "z"]));
    for i in 1..n {
        s.push(if i % 7 == 5 && i + 1 < n { *r.pick(&['-', '_', 'b']) } else { *r.pick(&['a', 'e', 'r', 't', 'X', 'w']) });
    }
    s + &format!("{}", r.n(90))
}
fn string(r: &mut Rng) -> String {
    let n = match r.n(10) {
        0 => 0,
        1..=6 => 1 + r.n(3),
        7 | 8 => 5 + r.n(20),
        _ => 40 + r.n(60),
    };
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&["abc", "x", " ", "é", "日本", "0", "%", "-", "end ", "Z;", "'", "unbrokenverylongword", "  "]));
    }
    s
}
fn value(r: &mut Rng, depth: usize, table: bool) -> V {
    match r.n(12) {
        _ if table => (),
        0 | 1 => return V::Int(*r.pick(&[0, 7, 42, 123456789, 1 << 40])),
        2 => return V::Bool(r.chance(1, 2)),
        3 => return V::Float(*r.pick(&[1.5, 0.25, 1234.0625])),
        4 => return V::None,
        5..=8 => return V::Str(string(r)),
        _ if depth == 0 => return V::Str(string(r)),
        _ => (),
    }
    let n = match r.n(10) {
        0 => 0,
        1..=7 => 1 + r.n(3),
        8 => 4 + r.n(4),
        _ => 10 + r.n(20),
    };
    if r.chance(1, 2) {
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..n.max(1) {
            m.insert(key(r), value(r, depth.saturating_sub(1), false));
        }
        V::Map(m.into_iter().collect())
    } else {
        V::List((0..n).map(|_| value(r, depth.saturating_sub(1), false)).collect())
    }
}
fn size(r: &mut Rng) -> (u16, u16) {
    let c = match r.n(10) {
        0 => *r.pick(&[0, 65535, 1000]),
        1..=3 => 1 + r.n(12) as u16,
        4..=6 => 1 + r.n(50) as u16,
        7 => 80,
        _ => 1 + r.n(300) as u16,
    };
    (*r.pick(&[24, 1, 50, 0, 3, 1000]), c)
}
pub fn make(_prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.knob("stepns", *r.pick(&[500, 2000, 20000]));
    let mode = if r.chance(2, 3) { 0 } else { 1 + r.n(2) as u8 };
    if mode > 0 {
        s.file("/home/u/.dune-prelude", b"let prompt = cwd -> \"> \";");
    }
    if mode == 2 {
        s.stdin = "tty".into();
        s.stdout = "tty".into();
    } else if r.chance(3, 4) {
        s.stdout = "tty".into();
        if r.chance(1, 2) {
            s.stdin = "tty".into();
        }
    }
    if mode == 1 {
        s.stdin = "null".into();
    }
    s.winsize = Some(size(&mut r));
    if mode == 2 {
        // narrower ones make the line editor redraw in ways of its own
        let w = s.winsize.unwrap();
        s.winsize = Some((w.0.max(5), w.1.max(4)));
    }
    let mut wins = vec![];
    if mode < 2 && r.chance(1, 2) {
        for _ in 0..1 + r.n(6) {
            let (a, b) = size(&mut r);
            wins.push((r.n(400_000) as i64, a, b));
        }
    }
    let n = 3 + r.n(if thorough { 12 } else { 7 });
    let mut ops = vec![];
    while ops.len() < n {
        let op = match r.n(16) {
            0 => Op::Sleep(r.range(1, 3)),
            1 => {
                let v = value(&mut r, 2, true);
                Op::Debug(v)
            }
            2 => {
                let v = value(&mut r, 1, true);
                Op::Fails(v)
            }
            3 | 4 => {
                let n = 2 + r.n(2);
                Op::Show(r.n(3), (0..n).map(|_| value(&mut r, 1, false)).collect())
            }
            5..=7 => {
                let v = value(&mut r, 3, true);
                Op::Bound(v)
            }
            8 => Op::Show(r.n(4), vec![value(&mut r, 0, false)]),
            _ => {
                let h = r.n(4);
                Op::Show(h, vec![value(&mut r, 3, true)])
            }
        };
        // the editor draws the line again for every character of it
        if mode == 2 && format!("{:?}", op).len() > 400 {
            continue;
        }
        ops.push(op);
    }
    Box::new(ShowCase { base: s, ops, mode, wins })
}
