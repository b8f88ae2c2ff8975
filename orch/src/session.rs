//! Engine D: interactive sessions at a simulated terminal (C16-C19): a user who types entries,
//! corrects, pastes, interrupts, recalls history, types ahead and leaves.
use crate::base::*;
use crate::runner::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

const LOG: &str = "/home/u/log";
const HIST: &str = "/home/u/.dune-history";
const GONE: &str = "/tmp/zgone";
const PRE: &str = "/home/u/.dune-prelude";

#[derive(Clone, Debug)]
enum S {
    Log(u32),
    Out(u32),
    Show(u32),
    Set(usize, i64),
    Inc(usize, i64),
    Var(usize),
    NoProg(u32),
    Div,
    Prog(usize),
    /// only the name of a program: run if it is what the entry comes to
    Bare(usize),
    Cd(String),
    /// into a directory that then goes away
    Gone,
    Sleep(i64),
    ForLog(u32, u32),
    If(bool, u32, u32),
    Def(usize, u32, i64),
    Call(usize, i64),
    Mark,
    Exit(i64),
    Prompt(u32),
    /// the named file is read and shown
    Rd(String),
    /// a token is printed, then a value is shown
    Val(u32, usize),
}
/// files there for completion: path, what they hold (None: a directory)
const NAMED: &[(&str, Option<&str>)] = &[
    ("/home/u/alpha-1", Some("tok901.")),
    ("/home/u/alpha-2", Some("tok902.")),
    ("/home/u/alphabet", Some("tok903.")),
    ("/home/u/beta.txt", Some("tok904.")),
    ("/home/u/my dir", None),
    ("/home/u/my dir/eps", Some("tok905.")),
    ("/home/u/my dir/eta zeta", Some("tok906.")),
    ("/home/u/d1/gamma", Some("tok907.")),
    ("/home/u/d1/delta", None),
    ("/home/u/d1/delta/zeta", Some("tok908.")),
    ("/home/u/d1/alpha-1", Some("tok909.")),
    ("/home/u/d1/log.old", Some("tok910.")),
    ("/home/u/d1/to", Some("tok911.")),
    ("/tmp/alp", Some("tok912.")),
];
/// values and how they are shown
const VALS: &[(&str, &str)] = &[("(5 - 5)", "0"), ("(1 == 2)", "False"), ("[]", "\u{250f}\u{2513}"), ("(0.0 * 1.0)", "0"), ("(2 + 3)", "5"), ("True", "True"), ("(5 // 2.0)", "2.5"), ("(x -> x + 1)", "x -> (+ x 1)"), ("(len \"\")", "0"), ("'(2 + 3)", "((+ 2 3))"), ("'(echo 7)", "(echo 7)"), ("'(p1 1)", "(p1 1)")];
/// whether the path starts from a directory that is not there
fn lost(cwd: &str, p: &str) -> bool {
    cwd == GONE && !p.starts_with('/')
}
fn normalize(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", cwd, p) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// programs: script, then what they do: (printed, logged)
const PROGS: &[(&str, &str, &str, &str)] = &[
    ("p0", "out 70726f67302e0a", "prog0.", ""),
    ("p1", "app /home/u/log 3c70313e out 70726f67312e0a", "prog1.", "<p1>"),
    ("p2", "sleep 30 out 70726f67322e0a", "prog2.", ""),
    ("p3", "err 6f6f7073 exit 3", "", ""),
    ("p4", "out 70726f67342e", "prog4.", ""), // no line end
    ("p5", "line out 70726f67352e0a", "prog5.", ""),
    ("p6", "app /home/u/log 3c70363e out 726561647936 pause out 70726f67362e0a", "", "<p6>"),
    ("p7", "ignint out 726561647937 sleep 40 out 70726f67372e0a", "prog7.", ""),
    ("p8", "gen 5000 4 out 0a70726f67382e0a", "prog8.", ""),
    ("p9", "app /home/u/log 3c70393e die 11", "", "<p9>"),
];
impl S {
    fn text(&self) -> String {
        let lg = |k: &u32| format!("(\"<{}\" + \">\") >>> \"{}\"", k, LOG);
        match self {
            S::Log(k) => lg(k),
            S::Out(k) => format!("echo (\"to\" + \"k{}.\")", k),
            S::Show(k) => format!("(\"to\" + \"k{}.\")", k),
            S::Set(v, n) => format!("let a{} = {}", v, n),
            S::Inc(v, n) => format!("let a{} = a{} + {}", v, v, n),
            S::Var(v) => format!("echo (\"va\" + \"l\" + (str a{}) + \".\")", v),
            S::NoProg(k) => format!("nofn{} 1", k),
            S::Div => "1 // 0".into(),
            S::Prog(p) => format!("{} 1", PROGS[*p].0),
            S::Bare(p) => PROGS[*p].0.into(),
            S::Cd(d) => format!("cd \"{}\"", d),
            S::Gone => format!("fs@mkdir \"{}\"; cd \"{}\"; fs@rmdir \"{}\"", GONE, GONE, GONE),
            S::Sleep(n) => format!("time@sleep {}", n),
            S::ForLog(a, b) => format!("for vi in [{}, {}] {{ (\"<\" + (str vi) + \">\") >>> \"{}\" }}", a, b, LOG),
            S::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", if *c { "True" } else { "1 == 2" }, lg(a), lg(b)),
            S::Def(f, k, d) => format!("let g{} = x -> {{ {}; x + {} }}", f, lg(k), d),
            S::Call(f, n) => format!("echo (\"va\" + \"l\" + (str (g{} {})) + \".\")", f, n),
            S::Mark => "echo (2 * \"@\")".into(),
            S::Exit(n) => format!("exit {}", n),
            S::Val(k, v) => format!("echo (\"to\" + \"k{}.\"); {}", k, VALS[*v].0),
            S::Rd(p) => format!("echo (fs@read \"{}\")", p),
            S::Prompt(k) => format!("let prompt = cwd -> \"Q{}:\" + cwd + \"> \"", k),
        }
    }
}
/// what the shell suggests by itself
const KNOWN: &[&str] = &["exit 0", "ls ", "rm -ri ", "cp -r ", "head ", "tail ", "cd ", "clear"];
#[derive(Clone, Debug)]
enum Item {
    /// statements, layout of the text, typing style, typed while the previous entry still runs, lead (blank first)
    Entry { st: Vec<S>, lay: u8, style: u8, ahead: bool, lead: bool },
    /// nothing but Enter, blanks or a remark
    Empty(&'static str),
    /// part of a line, then ^C
    Typo(String, u8),
    /// an unfinished entry given up with an empty line (false) or ^C (true) after typing `.2`
    Unfinished(Vec<String>, bool, String),
    /// the entry that many back in the history is brought back and run again
    Recall(usize, u8),
    /// the beginning of an earlier entry (that many back, so much of it), and the suggested rest is accepted
    Hint(usize, usize),
    /// an earlier entry after a blank, so much of it typed before a suggestion is asked for: there is none
    HintBlank(usize, usize),
    /// the suggestion for a word the shell knows is accepted: exit 0
    HintExit(usize),
    /// a word, the suggestion accepted if there is one
    Word(&'static str),
}
/// what the terminal user does around an entry
#[derive(Clone, Debug, Default)]
struct Prior {
    text: Option<Vec<u8>>,
    loaded: Vec<(String, Vec<S>)>,
    /// cannot be loaded: it is left alone
    broken: bool,
}
#[derive(Default)]
struct Model {
    vars: BTreeMap<usize, i64>,
    fns: BTreeMap<usize, (u32, i64)>,
    cwd: String,
    pr: Option<u32>,
    /// as the editor holds it
    hist: Vec<(String, Option<Vec<S>>)>,
    ended: bool,
    /// condition under which the previous entry is still running
    busy: &'static str,
    /// this entry was typed while the previous one ran
    ahead: bool,
}
impl Model {
    fn prompt(&self) -> String {
        match self.pr {
            None => format!("(dune) {}$ ", self.cwd),
            Some(k) => format!("Q{}:{}> ", k, self.cwd),
        }
    }
    /// partial texts may or may not be kept
    fn add(&mut self, e: &mut Expect, t: &str, st: Option<&[S]>) {
        if nonblank(t) && self.hist.last().map(|x| &x.0[..]) != Some(t) {
            if self.hist.len() == 100 {
                self.hist.remove(0);
            }
            self.hist.push((t.to_string(), st.map(|x| x.to_vec())));
            e.hist.push((t.to_string(), st.is_some()));
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
enum PreKind {
    Normal,
    Absent(Vec<u8>),
    Failing(String, Vec<u8>),
    BadUtf8(Vec<u8>),
    Dir(Vec<u8>),
    Dangling(Vec<u8>),
    Link,
}
struct SessCase {
    prop: String,
    base: Scen,
    items: Vec<Item>,
    /// 0 terminal, 1 no terminal, 2 terminal without editing
    mode: u8,
    prior: Prior,
    pre: PreKind,
    typeseed: u64,
    /// shows the known finding about the editor's question for the cursor's position
    probe: bool,
}
#[derive(Default)]
struct Expect {
    log: String,
    outs: Vec<String>,
    errs: Vec<String>,
    prompts: Vec<String>,
    /// (text, must be there)
    hist: Vec<(String, bool)>,
    /// at each mark: entries saved, log
    marks: Vec<(usize, String)>,
    /// once the log is longer than this, so many entries were saved
    started: Vec<(usize, usize)>,
    status: i64,
    spawns: Vec<String>,
    lines: Vec<String>,
    user: Vec<(String, i64, Act)>,
    typed: String,
    script: String,
}
fn nonblank(t: &str) -> bool {
    !t.is_empty() && !t.starts_with(|c: char| c.is_whitespace())
}
impl SessCase {
    fn layout(st: &[S], lay: u8) -> Vec<String> {
        let one = st.iter().map(|s| s.text()).collect::<Vec<_>>().join("; ");
        match lay {
            1 => {
                let mut v = vec!["{".to_string()];
                for (i, s) in st.iter().enumerate() {
                    v.push(format!("{}{}", s.text(), if i + 1 < st.len() { ";" } else { "" }));
                }
                v.push("}".into());
                v
            }
            2 => {
                // broken inside the parentheses of the last one
                let l = st.last().unwrap().text();
                match l.find('(') {
                    Some(p) if l.starts_with("echo (") => {
                        let mut head = st[..st.len() - 1].iter().map(|s| s.text() + "; ").collect::<String>();
                        head.push_str(&l[..p + 1]);
                        vec![head, l[p + 1..].to_string()]
                    }
                    _ => vec![one],
                }
            }
            3 => vec![format!("{} # note", one)],
            5 | 6 => {
                // a line of blanks (or a remark) in between does not end the entry
                let mut v = Self::layout(st, 1);
                let fill = match (lay, st.len() % 3) {
                    (5, 0) => " ",
                    (5, _) => "   ",
                    (_, 0) => "# remark",
                    _ => "   # remark }",
                };
                v.insert(1 + st.len() % 2, fill.into());
                if st.len() > 1 {
                    v.insert(1, fill.into());
                }
                v
            }
            4 => vec!["if True {".into(), one, "} else {".into(), "  0".into(), "}".into()],
            _ => vec![one],
        }
    }
    /// what the directory holds when nothing has gone wrong
    fn names(&self, dir: &str) -> Vec<(String, bool)> {
        let mut v: Vec<(String, bool)> = vec![];
        for i in &self.base.fs {
            let (p, d) = match i {
                Init::Dir(p, _) => (p.clone(), true),
                Init::File(p, _, _) => (lossy(p), false),
                _ => continue,
            };
            if let Some(n) = p.strip_prefix(if dir == "/" { "/" } else { dir }).map(|x| x.trim_start_matches('/')) {
                if !n.is_empty() && !n.contains('/') && p == normalize("/", &format!("{}/{}", dir, n)) && v.iter().all(|x| x.0 != n) {
                    v.push((n.into(), d));
                }
            }
        }
        v
    }
    /// where the path before the cursor starts, what Tab makes of it, and how many names fit
    fn tab(&self, before: &str, cwd: &str) -> Option<(usize, String, usize)> {
        let quote = before.match_indices('"').map(|x| x.0).collect::<Vec<_>>();
        let start = if quote.len() % 2 == 1 {
            quote[quote.len() - 1] + 1
        } else {
            before.rfind(&[' ', '\t', '"', '\\', '\'', '`', '@', '$', '>', '<', '=', ';', '|', '&', '{', '('][..]).map_or(0, |x| x + 1)
        };
        let path = &before[start..];
        let (dir, name) = match path.rfind('/') {
            Some(i) => path.split_at(i + 1),
            None => ("", path),
        };
        if dir.starts_with('~') || name.starts_with('.') || before.contains('\'') || before.contains('\\') || !before.is_ascii() {
            return None;
        }
        let at = normalize(cwd, dir);
        let at = if lost(cwd, path) { "/nowhere".into() } else { at };
        let fits: Vec<String> = self.names(&at).into_iter().filter(|x| x.0.starts_with(name)).map(|x| format!("{}{}{}", dir, x.0, if x.1 { "/" } else { "" })).collect();
        if fits.iter().any(|x| x.contains(' ')) && quote.len() % 2 == 0 {
            return None;
        }
        // the history is made by and by
        if name.is_empty() && at == "/home/u" {
            return None;
        }
        let mut l = match fits.first() {
            Some(x) => x.clone(),
            None => path.to_string(),
        };
        for f in &fits {
            while !f.starts_with(&l[..]) {
                l.pop();
            }
        }
        if l.len() <= path.len() {
            l = path.to_string();
        }
        Some((start, l, fits.len()))
    }
    fn tab_keys(&self, r: &mut Rng, line: &str, style: u8, first: &str, cwd: &str, user: &mut Vec<(String, i64, Act)>) {
        let mut b: Vec<u8> = vec![];
        let mut f = first;
        let wait = |r: &mut Rng| r.chance(1, 2);
        if style == 11 {
            let at: Vec<(usize, usize, usize)> = (1..line.len())
                .filter(|i| line.is_char_boundary(*i))
                .filter_map(|i| {
                    let (s, l, _) = self.tab(&line[..i], cwd)?;
                    (line[s..].starts_with(&l) && s + l.len() > i && s + l.len() < line.len()).then_some((i, s + l.len(), 0))
                })
                .collect();
            if !at.is_empty() {
                let (i, j, _) = *r.pick(&at);
                b.extend(line[..i].bytes());
                b.extend(line[j..].bytes());
                for _ in line[j..].chars() {
                    b.extend(b"\x1b[D");
                }
                if wait(r) {
                    user.push((f.into(), 0, Act::Keys(std::mem::take(&mut b))));
                    f = "r";
                }
                b.extend(b"\t\x05\r");
                user.push((f.into(), 0, Act::Keys(b)));
                return;
            }
        }
        let mut i = 0;
        while i < line.len() {
            let c = line[i..].chars().next().unwrap();
            b.extend(c.to_string().bytes());
            i += c.len_utf8();
            if !r.chance(1, 3) {
                continue;
            }
            let Some((s, l, n)) = self.tab(&line[..i], cwd) else { continue };
            if !line[s..].starts_with(&l) {
                continue;
            }
            if wait(r) {
                user.push((f.into(), *r.pick(&[0, 1_000, 40_000_000]), Act::Keys(std::mem::take(&mut b))));
                f = "r";
            }
            b.push(b'\t');
            if n > 1 && r.chance(1, 3) {
                b.push(b'\t');
            }
            if wait(r) {
                user.push((f.into(), *r.pick(&[0, 1_000, 40_000_000]), Act::Keys(std::mem::take(&mut b))));
                f = "r";
            }
            i = s + l.len();
        }
        b.push(b'\r');
        user.push((f.into(), 0, Act::Keys(b)));
    }
    fn keys(&self, r: &mut Rng, line: &str, style: u8, first: &str, user: &mut Vec<(String, i64, Act)>) {
        let mut push = |c: &str, d: i64, k: Vec<u8>| user.push((c.to_string(), d, Act::Keys(k)));
        let d = |r: &mut Rng| *r.pick(&[0, 0, 1_000, 300_000, 40_000_000, 2_000_000_000]);
        let chars: Vec<char> = line.chars().collect();
        let bs = |s: String| s.into_bytes();
        match style {
            1 => {
                for (i, c) in chars.iter().enumerate() {
                    push(if i == 0 { first } else { "r" }, if r.chance(1, 4) { d(r) } else { 0 }, bs(c.to_string()));
                }
                push("r", d(r), b"\r".to_vec());
            }
            2 => {
                let mut i = 0;
                let mut f = first;
                while i < chars.len() {
                    let n = 1 + r.n(12.min(chars.len() - i));
                    push(f, d(r), bs(chars[i..i + n].iter().collect()));
                    f = "r";
                    i += n;
                }
                push(f, d(r), b"\r".to_vec());
            }
            3 => {
                let p = r.n(chars.len() + 1);
                let mut s: String = chars[..p].iter().collect();
                let n = 1 + r.n(4);
                for k in 0..n {
                    s.push(*["x", "\u{e9}", "7", "{"].get((k + p) % 4).unwrap().chars().collect::<Vec<_>>().first().unwrap());
                }
                let mut b = bs(s);
                b.extend(vec![0x7fu8; n]);
                b.extend(bs(chars[p..].iter().collect()));
                b.push(b'\r');
                push(first, d(r), b);
            }
            4 => {
                push(first, d(r), b"echo 99; nofn99 (".to_vec());
                let mut b = vec![0x15u8];
                b.extend(bs(line.into()));
                push("r", d(r), b);
                push("r", 0, b"\r".to_vec());
            }
            5 => {
                let mut b = b"\x1b[200~".to_vec();
                b.extend(bs(line.into()));
                b.extend(b"\x1b[201~");
                push(first, d(r), b);
                push("r", d(r), b"\r".to_vec());
            }
            6 if chars.len() > 2 => {
                // one character forgotten, added after going back
                let p = r.n(chars.len() - 1);
                let mut s: String = chars[..p].iter().collect();
                s.extend(chars[p + 1..].iter());
                let mut b = bs(s);
                for _ in 0..chars.len() - 1 - p {
                    b.extend(if r.chance(1, 2) { &b"\x1b[D"[..] } else { &b"\x02"[..] });
                }
                b.extend(chars[p].to_string().as_bytes());
                push(first, d(r), b);
                push("r", d(r), b"\r".to_vec());
            }
            7 => {
                // the beginning is typed last
                let p = r.n(chars.len() + 1);
                let mut b = bs(chars[p..].iter().collect());
                b.push(1);
                b.extend(bs(chars[..p].iter().collect()));
                push(first, d(r), b);
                push("r", d(r), b"\r".to_vec());
            }
            8 => {
                let mut b = b"junk".to_vec();
                b.push(0x17);
                b.extend(bs(line.into()));
                b.extend(b"\n");
                push(first, d(r), b);
            }
            _ => {
                let mut b = bs(line.into());
                b.push(if style == 9 { b'\n' } else { b'\r' });
                push(first, d(r), b);
            }
        }
    }
    /// what the user does, and what must come of it
    fn expect(&self, keep: &[bool]) -> Expect {
        let mut e = Expect::default();
        let mut r = Rng::new(self.typeseed);
        let mut m = Model { cwd: "/home/u".into(), ..Default::default() };
        for h in &self.prior.loaded {
            m.hist.push((h.0.clone(), Some(h.1.clone())));
            e.hist.push((h.0.clone(), true));
        }
        self.prelude(&mut e);
        if self.ends_at_answer() {
            return e;
        }
        let trig = self.trig();
        for (k, it) in self.items.iter().enumerate() {
            let mut ir = r.fork();
            if !keep[k] || m.ended {
                continue;
            }
            let prompt = m.prompt();
            match it {
                Item::Empty(t) => {
                    e.prompts.push(prompt);
                    self.keys(&mut ir, t, 0, trig, &mut e.user);
                    let _ = write!(e.script, "{}\n", t);
                    let _ = write!(e.typed, "{}(Enter)\n", t);
                    m.add(&mut e, t, Some(&[]));
                    m.busy = "";
                }
                Item::Typo(t, how) => {
                    e.prompts.push(prompt);
                    let mut b = t.clone().into_bytes();
                    if *how == 1 {
                        b.push(3);
                    }
                    e.user.push((trig.into(), 0, Act::Keys(b)));
                    if *how == 2 {
                        // an interrupt from elsewhere, then ^C
                        e.user.push((trig.into(), 1_000_000, Act::Sig(2)));
                    }
                    if *how != 1 {
                        e.user.push((trig.into(), 1_000_000, Act::Keys(vec![3])));
                    }
                    let _ = write!(e.typed, "{} ^C\n", t);
                    m.busy = "";
                }
                Item::Unfinished(ls, ctrlc, part) => {
                    e.prompts.push(prompt);
                    let mut text = String::new();
                    for (i, l) in ls.iter().enumerate() {
                        self.keys(&mut ir, l, if self.mode == 2 { 0 } else { (k % 4) as u8 }, trig, &mut e.user);
                        let _ = write!(e.typed, "{}\n", l);
                        let _ = write!(e.script, "{}\n", l);
                        if i > 0 {
                            text.push('\n');
                        }
                        text.push_str(l);
                        m.add(&mut e, &text, None);
                    }
                    if *ctrlc {
                        e.user.push((trig.into(), 0, Act::Keys(part.clone().into_bytes())));
                        e.user.push((trig.into(), 1_000_000, Act::Keys(vec![3])));
                        let _ = write!(e.typed, "{} ^C\n", part);
                    } else {
                        self.keys(&mut ir, "", 0, trig, &mut e.user);
                        e.typed.push_str("(Enter)\n");
                        e.script.push('\n');
                    }
                    e.errs.push("syntax error".into());
                    m.busy = "";
                }
                Item::Recall(n, how) => {
                    let Some(at) = m.hist.len().checked_sub(*n) else { continue };
                    let (text, Some(st)) = m.hist[at].clone() else { continue };
                    let mut b = vec![];
                    let single = m.hist[at + 1..].iter().all(|h| !h.0.contains('\n'));
                    for _ in 0..*n {
                        b.extend(if *how == 0 && single { &b"\x1b[A"[..] } else { &b"\x10"[..] });
                    }
                    if *how == 2 {
                        // one too far and back
                        if at > 0 {
                            b.extend(b"\x10\x0e");
                        }
                    }
                    e.prompts.push(prompt);
                    if *how == 1 {
                        // half a line first: it is replaced
                        let mut c = b"echo 98; (".to_vec();
                        c.extend(b);
                        b = c;
                    }
                    e.user.push((trig.into(), 0, Act::Keys(b)));
                    e.user.push((trig.into(), 1_000_000, Act::Keys(b"\r".to_vec())));
                    let _ = write!(e.typed, "({} back) {}\n", n, text);
                    m.add(&mut e, &text, Some(&st));
                    self.run(&st, &mut m, &mut e, &mut ir, k, true);
                }
                Item::Hint(n, l) => {
                    let Some(at) = m.hist.len().checked_sub(*n) else { continue };
                    let text = m.hist[at].0.clone();
                    let l = (*l).clamp(6, text.len().max(6));
                    if l >= text.len() || !text.is_char_boundary(l) {
                        continue;
                    }
                    let typed = &text[..l];
                    // the newest entry that begins so
                    let Some((text, Some(st))) = m.hist.iter().rev().find(|h| h.0.starts_with(typed)).cloned() else { continue };
                    if text.contains('\n') || text == typed || typed.contains('\n') || KNOWN.iter().any(|x| x.contains(typed)) {
                        continue;
                    }
                    e.prompts.push(prompt);
                    let mut b = typed.as_bytes().to_vec();
                    b.extend(b"\x1b[C");
                    if ir.chance(1, 2) {
                        e.user.push((trig.into(), 0, Act::Keys(b)));
                        b = vec![];
                    }
                    b.push(b'\r');
                    e.user.push((trig.into(), 0, Act::Keys(b)));
                    let _ = write!(e.typed, "{} (suggestion accepted)\n", typed);
                    m.add(&mut e, &text, Some(&st));
                    self.run(&st, &mut m, &mut e, &mut ir, k, true);
                }
                Item::HintBlank(n, l) => {
                    let Some(at) = m.hist.len().checked_sub(*n) else { continue };
                    let (text, Some(st)) = m.hist[at].clone() else { continue };
                    let l = (*l).clamp(2, text.len().max(2));
                    if text.contains('\n') || l >= text.len() || !text.is_char_boundary(l) || text.starts_with(' ') || KNOWN.iter().any(|x| x.contains(&text[..l])) {
                        continue;
                    }
                    e.prompts.push(prompt);
                    let mut b = format!(" {}", &text[..l]).into_bytes();
                    b.extend(b"\x1b[C");
                    if ir.chance(1, 2) {
                        e.user.push((trig.into(), 0, Act::Keys(b)));
                        b = vec![];
                    }
                    b.extend(text[l..].as_bytes());
                    b.push(b'\r');
                    e.user.push((trig.into(), 0, Act::Keys(b)));
                    let _ = write!(e.typed, " {} (nothing suggested, {} bytes typed before asking)\n", text, l);
                    self.run(&st, &mut m, &mut e, &mut ir, k, true);
                }
                Item::Word(w) => {
                    let text = match KNOWN.iter().find(|x| x.starts_with(w)) {
                        Some(x) => x.to_string(),
                        None => match m.hist.iter().rev().find(|h| h.0.starts_with(w)) {
                            // not what is tried here
                            Some(h) if h.0 != *w => continue,
                            _ => w.to_string(),
                        },
                    };
                    e.prompts.push(prompt);
                    e.user.push((trig.into(), 0, Act::Keys(w.as_bytes().to_vec())));
                    e.user.push((trig.into(), 0, Act::Keys(b"\x1b[C".to_vec())));
                    e.user.push((trig.into(), 0, Act::Keys(b"\r".to_vec())));
                    let _ = write!(e.typed, "{} (suggestion accepted)\n", w);
                    m.add(&mut e, &text, None);
                    if let Some(x) = e.hist.last_mut().filter(|x| x.0 == text) {
                        x.1 = true;
                    }
                    e.errs.push(format!("program \"{}\" not found", text.split(' ').next().unwrap()));
                    m.busy = "";
                }
                Item::HintExit(n) => {
                    e.prompts.push(prompt);
                    let mut b = b"exit 0"[..*n].to_vec();
                    b.extend(b"\x1b[C\r");
                    e.user.push((trig.into(), 0, Act::Keys(b)));
                    let _ = write!(e.typed, "{} (suggestion accepted)\n", &"exit 0"[..*n]);
                    let st = [S::Exit(0)];
                    m.add(&mut e, "exit 0", Some(&st));
                    self.run(&st, &mut m, &mut e, &mut ir, k, true);
                }
                Item::Entry { st, lay, style, ahead, lead } => {
                    e.prompts.push(prompt);
                    let mut lines = Self::layout(st, *lay);
                    if *lead {
                        lines[0].insert(0, ' ');
                    }
                    let first = if *ahead && self.mode == 0 && !m.busy.is_empty() { m.busy } else { trig };
                    let mut text = String::new();
                    m.ahead = first != trig;
                    for (i, l) in lines.iter().enumerate() {
                        let ahead = i == 0 && first != trig;
                        let style = if ahead || self.mode == 2 { if *style == 9 { 9 } else { 0 } } else { *style };
                        if style >= 10 {
                            self.tab_keys(&mut ir, l, style, if i == 0 { first } else { trig }, &m.cwd, &mut e.user);
                        } else {
                            self.keys(&mut ir, l, style, if i == 0 { first } else { trig }, &mut e.user);
                        }
                        let _ = write!(e.typed, "{}{}\n", if ahead { "(ahead) " } else { "" }, l);
                        let _ = write!(e.script, "{}\n", l);
                        if i > 0 {
                            text.push('\n');
                        }
                        text.push_str(l);
                        m.add(&mut e, &text, if i + 1 == lines.len() { Some(st) } else { None });
                    }
                    self.run(st, &mut m, &mut e, &mut ir, k, lines.len() == 1);
                    m.ahead = false;
                }
            }
        }
        if !m.ended {
            e.prompts.push(m.prompt());
            e.user.push((trig.into(), 0, Act::Keys(vec![4])));
        }
        e
    }
    /// the effects of one entry
    fn run(&self, st: &[S], m: &mut Model, e: &mut Expect, ir: &mut Rng, k: usize, single: bool) {
        m.busy = "";
        let before = e.log.len();
        for (i, s) in st.iter().enumerate() {
            let last = i + 1 == st.len();
            match s {
                S::Log(n) => {
                    let _ = write!(e.log, "<{}>", n);
                }
                S::Out(n) => e.outs.push(format!("tok{}.", n)),
                S::Val(n, k) => {
                    e.outs.push(format!("tok{}.", n));
                    if last {
                        e.outs.push(format!("={}", VALS[*k].1));
                    }
                }
                S::Show(n) => {
                    if last {
                        e.outs.push(format!("tok{}.", n));
                    }
                }
                S::Set(v, n) => {
                    m.vars.insert(*v, *n);
                }
                S::Inc(v, n) => match m.vars.get_mut(v) {
                    Some(x) => *x += n,
                    None => {
                        e.errs.push(format!("cannot add a{} and", v));
                        break;
                    }
                },
                S::Var(v) => e.outs.push(match m.vars.get(v) {
                    Some(x) => format!("val{}.", x),
                    None => format!("vala{}.", v),
                }),
                S::NoProg(n) => {
                    e.errs.push(format!("program \"nofn{}\" not found", n));
                    break;
                }
                S::Div => {
                    e.errs.push("cannot divide 1 and".into());
                    break;
                }
                S::Prog(p) if m.cwd == GONE => {
                    e.errs.push(format!("program \"{}\" not found", PROGS[*p].0));
                    break;
                }
                S::Bare(_) if !last => (),
                S::Bare(p) if m.cwd == GONE => e.errs.push(format!("program \"{}\" not found", PROGS[*p].0)),
                S::Bare(p) => {
                    let (n, _, o, l) = PROGS[*p];
                    e.spawns.push(n.into());
                    if !o.is_empty() {
                        e.outs.push(o.into());
                    }
                    e.log.push_str(l);
                }
                S::Gone => m.cwd = GONE.into(),
                S::Prog(p) => {
                    let (n, _, o, l) = PROGS[*p];
                    e.spawns.push(n.into());
                    if !o.is_empty() {
                        e.outs.push(o.into());
                    }
                    e.log.push_str(l);
                    match *p {
                        5 => {
                            let line = format!("line{} {}", k, i);
                            e.user.push(("c".into(), 1_000_000, Act::Keys(format!("{}x\x7f\r", line).into_bytes())));
                            let _ = write!(e.typed, "(to the program) {}\n", line);
                            e.lines.push(line);
                        }
                        6 => {
                            e.user.push(("o:ready6".into(), *ir.pick(&[2_000_000, 500_000_000]), Act::Keys(vec![3])));
                            e.typed.push_str("(^C to the program)\n");
                        }
                        7 => match ir.n(4) {
                            0 => (),
                            1 => {
                                e.user.push(("o:ready7".into(), 1_000_000, Act::Sig(2)));
                                e.typed.push_str("(SIGINT to the shell)\n");
                            }
                            _ => {
                                e.user.push(("o:ready7".into(), 2_000_000, Act::Keys(vec![3])));
                                e.typed.push_str("(^C to the program)\n");
                            }
                        },
                        2 if last => m.busy = "k",
                        _ => (),
                    }
                }
                S::Cd(d) => {
                    let t = normalize(&m.cwd, d);
                    let known = ["/", "/home", "/home/u", "/home/u/d1", "/tmp"].contains(&&t[..]) || self.prop == "C28" && NAMED.iter().any(|x| x.0 == t && x.1.is_none());
                    if !known || lost(&m.cwd, d) {
                        e.errs.push("does not exist".into());
                        break;
                    }
                    m.cwd = t;
                }
                S::Sleep(_) => {
                    if self.prop == "C17" && ir.chance(1, 2) && self.mode == 0 && !m.ahead {
                        e.user.push(("z".into(), 1_000_000, if ir.chance(1, 2) { Act::Keys(vec![3]) } else { Act::Sig(2) }));
                        e.typed.push_str("(^C while the shell sleeps)\n");
                    } else if last && single {
                        m.busy = "z";
                    }
                }
                S::ForLog(a, b) => {
                    let _ = write!(e.log, "<{}><{}>", a, b);
                }
                S::If(c, a, b) => {
                    let _ = write!(e.log, "<{}>", if *c { a } else { b });
                }
                S::Def(f, n, d) => {
                    m.fns.insert(*f, (*n, *d));
                }
                S::Call(f, n) => match m.fns.get(f) {
                    Some((l, d)) => {
                        let _ = write!(e.log, "<{}>", l);
                        e.outs.push(format!("val{}.", n + d));
                    }
                    None => {
                        e.errs.push(format!("program \"g{}\" not found", f));
                        break;
                    }
                },
                S::Mark => e.marks.push((e.hist.len(), e.log.clone())),
                S::Exit(n) => {
                    e.status = n & 255;
                    m.ended = true;
                    break;
                }
                S::Prompt(n) => m.pr = Some(*n),
                S::Rd(p) => {
                    let q = normalize(&m.cwd, p);
                    match NAMED.iter().find(|x| x.0 == q).and_then(|x| x.1) {
                        Some(t) if self.prop == "C28" && !lost(&m.cwd, p) => e.outs.push(t.into()),
                        _ => {
                            e.errs.push("could not read file".into());
                            break;
                        }
                    }
                }
            }
        }
        if e.log.len() > before {
            e.started.push((before, e.hist.len()));
        }
    }
    fn trig(&self) -> &'static str {
        if self.mode == 2 { "c" } else { "r" }
    }
    fn prelude(&self, e: &mut Expect) {
        match &self.pre {
            PreKind::Failing(t, _) if t.ends_with('+') => (), // does not parse
            PreKind::Normal | PreKind::Link | PreKind::Failing(_, _) => e.log.push_str("<pre>"),
            _ => (),
        }
        let Some((a, intro)) = self.answer() else { return };
        e.user.push(("r".into(), 0, Act::Keys(a.clone())));
        let _ = write!(e.typed, "(answer) {}\n", short(a));
        let dangling = matches!(self.pre, PreKind::Dangling(_));
        if Self::yes(a) && dangling {
            e.errs.push("Error while writing prelude".into());
        }
        if a != &vec![4u8] && (intro || Self::yes(a)) {
            // the introduction asks whether this is the first time
            let long = self.typeseed & 1 == 1;
            e.user.push(("w".into(), 0, Act::Keys(if long { b"y\r".to_vec() } else { b"n\r".to_vec() })));
            for _ in 0..if long { 7 } else { 1 } {
                e.user.push(("w".into(), 0, Act::Keys(b"\r".to_vec())));
            }
            e.typed.push_str("(the introduction is read)\n");
        }
    }
    fn ends_at_answer(&self) -> bool {
        self.answer().map_or(false, |x| x.0 == &vec![4u8])
    }
}

// ---- reading back what the run did
fn plain(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let mut o = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            o.push(c);
            continue;
        }
        match it.peek() {
            Some('[') => {
                it.next();
                for c in it.by_ref() {
                    if c.is_ascii_alphabetic() || c == '~' {
                        break;
                    }
                }
            }
            Some(']') => {
                for c in it.by_ref() {
                    if c == '\x07' || c == '\\' {
                        break;
                    }
                }
            }
            _ => (),
        }
    }
    o
}
fn tokens(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        let stem = ["tok", "val", "prog"].iter().find(|s| r.starts_with(**s));
        if let Some(s) = stem {
            let b = &r[s.len()..];
            let n = b.find(|c: char| !c.is_ascii_alphanumeric() && c != '-').unwrap_or(b.len());
            if n > 0 && b[n..].starts_with('.') {
                v.push(r[..s.len() + n + 1].to_string());
                i += s.len() + n + 1;
                let mut l = t[i..].split('\n');
                if let (Some(""), Some(x), Some(_)) = (l.next().map(str::trim_end), l.next().map(str::trim_end), l.next()) {
                    if VALS.iter().any(|v| v.1 == x) {
                        v.push(format!("={}", x));
                    }
                }
                continue;
            }
        }
        i += r.chars().next().unwrap().len_utf8();
    }
    v
}
fn prompts(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (i, c) in t.char_indices() {
        let r = &t[i..];
        let p = if c == '(' && r.starts_with("(dune) /") {
            r[8..].find(|c: char| !c.is_ascii_alphanumeric() && c != '/' && c != ' ').map(|n| (8 + n, "$ "))
        } else if c == 'Q' && r[1..].starts_with(|c: char| c.is_ascii_digit()) {
            let n = r[1..].find(|c: char| !c.is_ascii_digit()).unwrap_or(0) + 1;
            if r[n..].starts_with(":/") {
                r[n + 2..].find(|c: char| !c.is_ascii_alphanumeric() && c != '/' && c != ' ').map(|m| (n + 2 + m, "> "))
            } else {
                None
            }
        } else {
            None
        };
        if let Some((n, end)) = p {
            if r[n..].starts_with(end) {
                v.push(r[..n + 2].to_string());
            }
        }
    }
    v.dedup();
    v
}
fn history(b: &[u8]) -> Option<Vec<String>> {
    let t = std::str::from_utf8(b).ok()?;
    let Some(t) = t.strip_prefix("#V2\n") else { return Some(t.lines().map(|x| x.to_string()).collect()) };
    let mut v = vec![];
    for l in t.lines() {
        let mut o = String::new();
        let mut it = l.chars();
        while let Some(c) = it.next() {
            match c {
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    '\\' => o.push('\\'),
                    _ => return None,
                },
                c => o.push(c),
            }
        }
        v.push(o);
    }
    Some(v)
}
fn hist_text(v: &[String]) -> Vec<u8> {
    let mut o = String::from("#V2\n");
    for l in v {
        o.push_str(&l.replace('\\', "\\\\").replace('\n', "\\n"));
        o.push('\n');
    }
    o.into_bytes()
}
/// the newest 100 of these entries, in order; texts given up before completion may be missing
fn same_hist(got: &[String], exp: &[(String, bool)]) -> bool {
    let mut i = exp.len();
    for (n, g) in got.iter().rev().enumerate() {
        loop {
            if i == 0 {
                return false;
            }
            i -= 1;
            if exp[i].0 == *g {
                break;
            }
            if exp[i].1 && n < 100 {
                return false;
            }
        }
    }
    got.len() == 100 || exp[..i].iter().all(|x| !x.1)
}
fn diff(what: &str, got: &[String], want: &[String]) -> String {
    let i = (0..).find(|&i| got.get(i) != want.get(i)).unwrap_or(0);
    format!("{}: number {} is {:?}, expected {:?} (got {} of {})", what, i + 1, got.get(i), want.get(i), got.len(), want.len())
}

impl SessCase {
    fn answer(&self) -> Option<(&Vec<u8>, bool)> {
        match &self.pre {
            PreKind::Absent(a) | PreKind::Dangling(a) => Some((a, true)),
            PreKind::BadUtf8(a) | PreKind::Dir(a) | PreKind::Failing(_, a) => Some((a, false)),
            _ => None,
        }
    }
    fn yes(a: &[u8]) -> bool {
        let mut t = String::new();
        for c in String::from_utf8_lossy(a).chars() {
            if c == '\x7f' {
                t.pop();
            } else {
                t.push(c);
            }
        }
        t.ends_with(|c| c == '\r' || c == '\n') && t.trim().to_lowercase() == "y"
    }
    /// the prelude and anything it could have been mistaken for
    fn check_prelude(&self, t: &Trace, killed: bool, hard: bool) -> Chk {
        let Some(end) = t.end() else { return Ok(()) };
        let default = std::fs::read("/repo/src/.default-dune-prelude").unwrap_or_default();
        let a = self.answer().map(|x| x.0.clone()).unwrap_or_default();
        match &self.pre {
            PreKind::Absent(_) => {
                let now = t.file(end, PRE);
                let asked = t.evs.iter().any(|e| matches!(e, Ev::Input { .. }));
                match now {
                    None if end.nodes.contains_key(PRE.as_bytes()) => bad("prelude", "the prelude is not a plain file"),
                    None if Self::yes(&a) && !killed && !hard => bad("prelude-missing", format!("the answer {} did not create the default prelude", short(&a))),
                    None => Ok(()),
                    Some(_) if !Self::yes(&a) || !asked => bad("prelude-created", format!("a prelude was created though the answer was {}", short(&a))),
                    Some(b) if b == &default[..] => Ok(()),
                    Some(b) if killed && default.starts_with(b) => Ok(()),
                    Some(b) => bad("prelude-content", format!("the created prelude has {} bytes, not those of the default prelude ({})", b.len(), default.len())),
                }
            }
            PreKind::Dir(_) => match end.nodes.get(PRE.as_bytes()) {
                Some((Node::Dir, _)) if !end.nodes.keys().any(|k| k.starts_with(format!("{}/", PRE).as_bytes())) => Ok(()),
                x => bad("prelude-modified", format!("the directory at the prelude's place became {:?}", x)),
            },
            PreKind::Dangling(_) | PreKind::Link => {
                let s = t.start();
                let tgt = "/home/u/d1/mypre";
                if end.nodes.get(PRE.as_bytes()).map(|x| &x.0) != s.nodes.get(PRE.as_bytes()).map(|x| &x.0) {
                    return bad("prelude-modified", "the link at the prelude's place was changed");
                }
                if t.file(end, tgt) != t.file(s, tgt) || end.nodes.contains_key(tgt.as_bytes()) != s.nodes.contains_key(tgt.as_bytes()) {
                    return bad("prelude-modified", "what the prelude link points to was changed");
                }
                Ok(())
            }
            _ => {
                let s = t.start();
                if t.file(end, PRE) != t.file(s, PRE) || end.nodes.get(PRE.as_bytes()).map(|x| x.1) != s.nodes.get(PRE.as_bytes()).map(|x| x.1) {
                    return bad("prelude-modified", format!("the prelude, {} bytes, became {:?}", t.file(s, PRE).unwrap_or(b"").len(), t.file(end, PRE).map(|x| x.len())));
                }
                Ok(())
            }
        }
    }
}
impl Case for SessCase {
    fn nops(&self) -> usize {
        self.items.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        let e = self.expect(keep);
        match self.mode {
            1 => s.stdin = format!("source {}", hex(e.script.as_bytes())),
            _ => {
                s.stdin = "tty".into();
                s.stdout = "tty".into();
                s.user = e.user;
                if self.probe && s.user.len() > 1 {
                    // between the editor's question and the terminal's answer
                    s.user[1].0 = "o:\x1b[6n".into();
                    s.user[1].1 = 1_000_000;
                }
                if self.mode == 2 {
                    s.env.push(("TERM".into(), "dumb".into()));
                }
            }
        }
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let e = self.expect(keep);
        format!(
            "{}; prelude {:?}; earlier history {}\n{}",
            ["at a terminal", "from a pipe", "at a terminal without editing"][self.mode as usize],
            self.pre,
            if self.prior.broken { "unreadable".into() } else { format!("{} entries", self.prior.loaded.len()) },
            if self.mode == 1 { e.script } else { e.typed }
        )
    }
    fn check(&self, keep: &[bool], m: &Mods, t: &Trace) -> Chk {
        match self.judge(keep, m, t) {
            Err(v) if self.probe => bad("cursor-query", format!("keys typed while the editor waits for the terminal's answer about the cursor are lost ({}: {})", v.kind, v.msg)),
            r => r,
        }
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        self.faults(r, t, budget)
    }
}
impl SessCase {
    fn judge(&self, keep: &[bool], m: &Mods, t: &Trace) -> Chk {
        let e = self.expect(keep);
        let killed = t.how == "killed";
        let hard_open = |p: &str| {
            t.evs.iter().enumerate().any(|(i, x)| match x {
                Ev::Fault { seq, kind, val, .. } if kind == "errno" && *val != EINTR => t.evs[i..].iter().any(|y| matches!(y, Ev::Sys { seq: s, path, .. } if s == seq && path.contains(p))),
                _ => false,
            })
        };
        if t.how == "signal" {
            // the session had not begun
            let began = t.evs.iter().position(|x| matches!(x, Ev::Input { .. }) || self.mode == 1 && matches!(x, Ev::Thread { .. })).unwrap_or(t.evs.len());
            if t.evs[..began].iter().any(|x| matches!(x, Ev::Sig(l) if l.starts_with("K ") && l.ends_with(" 0"))) {
                return Ok(());
            }
        }
        let hard = hard_in(t, 0, t.evs.len());
        self.check_prelude(t, killed, hard)?;
        let shown = |x: &Vec<u8>| short(x);
        let errb = t.out(3, 0);
        // nothing to recall: what is typed instead may not be a whole entry
        let other = !self.prior.broken && errb_has(&errb, "Failed to load history") && self.items.iter().any(|x| matches!(x, Item::Recall(..)));
        if other && t.how == "deadlock" {
            return Ok(());
        }
        if self.prop == "C28" && hard && t.how == "deadlock" && t.blocked.iter().any(|b| b.starts_with("B thread 0 in read") || b.starts_with("B thread 0 in waitpid")) {
            // what was completed otherwise leaves the entry open: the session waits for more,
            // or runs a program whose input the user has typed already
            return Ok(());
        }
        if !killed && (t.how != "exit" || t.code.contains("101")) && !(self.prop == "C19" && hard && t.how == "deadlock") {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the session ended ({} {}) instead of with status {}: {} {:?}", t.how, t.code, e.status, shown(&errb), t.blocked));
        }
        if self.prop == "C19" && hard {
            // the questions asked may differ; what counts is the file
            return Ok(());
        }
        if self.prop == "C28" && hard {
            // what is typed may then be completed otherwise: the session must go on
            return match (t.how.as_str(), t.code.split(' ').next()) {
                ("exit", Some("0" | "1" | "7" | "255")) if self.unharmed(t) => Ok(()),
                ("exit", Some("0" | "1" | "7" | "255")) => bad("changed", "files the session did not name have changed"),
                _ => bad("crash", format!("the session ended ({} {}) after a failed system call: {}", t.how, t.code, shown(&errb))),
            };
        }
        // ---- history
        let start_hist = t.start().nodes.get(HIST.as_bytes()).cloned();
        let read_fault = hard_open(".dune-history") && {
            // a fault before the first save opened it
            let save = t.evs.iter().position(|x| matches!(x, Ev::Sys { cls: C_OPEN, path, .. } if path.contains(".dune-history|") && is_trunc(path))).unwrap_or(t.evs.len());
            hard_in(t, 0, save) && !errb_has(&errb, "Failed to save history") || errb_has(&errb, "Failed to load history")
        };
        let unsaved = self.prior.broken || read_fault;
        let began = !self.ends_at_answer();
        let hist_of = |s: &Snap| -> Result<Vec<String>, Viol> {
            match t.file(s, HIST) {
                None => Ok(vec![]),
                Some(b) => match history(b) {
                    Some(v) => Ok(v),
                    None => bad("history-format", format!("the history file holds {}", short(b))),
                },
            }
        };
        let save_fault = {
            let mut bad_save = false;
            let mut any = false;
            for (i, x) in t.evs.iter().enumerate() {
                if let Ev::Sys { cls: C_OPEN, path, .. } = x {
                    if path.contains(".dune-history|") && is_trunc(path) {
                        let to = t.evs[i..].iter().position(|y| matches!(y, Ev::Sys { name, path, .. } if name == "close" && path.contains(".dune-history"))).map_or(t.evs.len(), |n| i + n);
                        bad_save = hard_in(t, i.saturating_sub(1), to);
                        any |= bad_save;
                    }
                }
            }
            (any, bad_save)
        };
        if unsaved {
            if let Some(end) = t.end() {
                let same = match (&start_hist, end.nodes.get(HIST.as_bytes())) {
                    (Some(a), Some(b)) => a.0 == b.0 || t.file(t.start(), HIST).is_some() && t.file(t.start(), HIST) == t.file(end, HIST),
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    return bad("history-replaced", "a history that could not be loaded was replaced");
                }
            }
            if !killed && began && !errb_has(&errb, "Failed to load history") {
                return bad("history-silent", format!("a history that could not be loaded was not reported: {}", shown(&errb)));
            }
        }
        if killed {
            if unsaved {
                return Ok(());
            }
            let Some(end) = t.end() else { return Ok(()) };
            // a kill within a save may cut it
            let last = t.evs.iter().rposition(|x| matches!(x, Ev::Sys { cls: C_OPEN, path, .. } if path.contains(".dune-history|") && is_trunc(path)));
            if let Some(i) = last {
                if !t.evs[i..].iter().any(|y| matches!(y, Ev::Sys { name, path, .. } if name == "close" && path.contains(".dune-history"))) {
                    return Ok(());
                }
            }
            let log = lossy(t.file(end, LOG).unwrap_or(b""));
            if !e.log.starts_with(&log) {
                return bad("kill-effects", format!("before the kill {:?} had been done, expected the beginning of {:?}", log, e.log));
            }
            let need = e.started.iter().filter(|x| log.len() > x.0).map(|x| x.1).max().unwrap_or(0);
            let got = hist_of(end)?;
            if !(need.max(self.prior.loaded.len().min(e.hist.len()))..=e.hist.len()).any(|k| same_hist(&got, &e.hist[..k])) {
                return bad("history-lost", format!("after the kill the history ends in {:?}, though {} entries had been run or loaded", got.iter().rev().take(2).collect::<Vec<_>>(), need));
            }
            return Ok(());
        }
        if other {
            return Ok(());
        }
        // ---- the session
        if t.code.split(' ').next().and_then(|x| x.parse::<i64>().ok()) != Some(e.status) {
            return bad("status", format!("the session ended with {:?}, expected {}", t.code, e.status));
        }
        if self.mode != 1 {
            let n = t.evs.iter().filter(|x| matches!(x, Ev::Input { .. })).count();
            if n != e.user.len() {
                return bad("ended-early", format!("the session ended after {} of {} actions of the user", n, e.user.len()));
            }
        }
        let end = t.end().unwrap();
        let log = lossy(t.file(end, LOG).unwrap_or(b""));
        if log != e.log {
            let i = log.bytes().zip(e.log.bytes()).take_while(|(a, b)| a == b).count();
            return bad("effects", format!("the entries' effects are {:?}, expected {:?} (from byte {})", log, e.log, i));
        }
        let out = plain(&t.out(2, -1));
        // what is shown outside the line editor
        let mut shown_out = vec![];
        let mut raw = false;
        for x in &t.evs {
            match x {
                Ev::Mode(k) => raw = k.starts_with("raw"),
                Ev::Out { ofd: 2, data, .. } if !raw => shown_out.extend_from_slice(data),
                _ => (),
            }
        }
        let toks = tokens(&plain(&shown_out));
        if toks != e.outs {
            return bad("output", diff("shown values", &toks, &e.outs));
        }
        let spawned: Vec<String> = t.evs.iter().filter_map(|x| if let Ev::Spawn(s) = x { Some(lossy(s.file.rsplit(|c| *c == b'/').next().unwrap_or(b""))) } else { None }).collect();
        if spawned != e.spawns {
            return bad("programs", diff("programs started", &spawned, &e.spawns));
        }
        let lines: Vec<String> = {
            let mut by: BTreeMap<i32, Vec<u8>> = BTreeMap::new();
            for x in &t.evs {
                if let Ev::Read { pid, data: Some(d) } = x {
                    by.entry(*pid).or_default().extend_from_slice(d);
                }
            }
            by.values().map(|x| lossy(x)).collect()
        };
        let want: Vec<String> = e.lines.iter().map(|x| format!("{}\n", x)).collect();
        if lines != want && self.mode != 1 {
            return bad("program-input", diff("lines read by programs", &lines, &want));
        }
        // errors, in order
        let es = plain(&errb).replace('\x07', "");
        let mut at = 0;
        for w in &e.errs {
            match es[at..].find(&w[..]) {
                Some(p) => at += p + w.len(),
                None => return bad("error-missing", format!("{:?} was not reported: {:?}", w, es)),
            }
        }
        let rest: Vec<&str> = es.lines().filter(|l| !l.trim().is_empty() && !l.contains("Failed to save history") && !l.contains("Failed to load history")).collect();
        if e.errs.is_empty() && !rest.is_empty() {
            return bad("stderr", format!("nothing failed, yet standard error holds {:?}", rest));
        }
        if es.contains("Failed to save history") != save_fault.0 && self.prop == "C18" {
            return bad("history-report", format!("saving {}, standard error: {:?}", if save_fault.0 { "failed" } else { "never failed" }, es));
        }
        if self.mode == 0 {
            let got = prompts(&out);
            let mut want = e.prompts.clone();
            want.dedup();
            if got != want {
                return bad("prompts", diff("prompts", &got, &want));
            }
        }
        if self.mode != 1 {
            let mut mode = "cooked-echo";
            for x in &t.evs {
                match x {
                    Ev::Mode(k) => mode = k,
                    Ev::Spawn(_) if mode != "cooked-echo" => return bad("terminal", format!("a program was started with the terminal {}", mode)),
                    _ => (),
                }
            }
            if mode != "cooked-echo" {
                return bad("terminal", format!("the session left the terminal {}", mode));
            }
        }
        if !t.zombies.is_empty() {
            return bad("zombie", format!("programs were not waited for: {:?}", t.zombies));
        }
        // ---- history, at each mark and at the end
        if !unsaved {
            if !save_fault.0 {
                let ms: Vec<&Snap> = t.snaps.iter().filter(|s| s.why == "mark").collect();
                if ms.len() != e.marks.len() {
                    return bad("marks", format!("{} of {} marks", ms.len(), e.marks.len()));
                }
                for (s, (n, l)) in ms.iter().zip(&e.marks) {
                    let got = hist_of(s)?;
                    if !(*n..=e.hist.len()).any(|k| same_hist(&got, &e.hist[..k])) {
                        return bad("history-late", format!("while an entry runs the history ends in {:?}, expected {} entries up to {:?}", got.iter().rev().take(2).collect::<Vec<_>>(), n, e.hist.get(n - 1)));
                    }
                    let log = lossy(t.file(s, LOG).unwrap_or(b""));
                    if log != *l {
                        return bad("order", format!("at a mark the effects are {:?}, expected {:?}", log, l));
                    }
                }
            }
            if !save_fault.1 {
                let got = hist_of(end)?;
                let saved = e.hist.iter().rposition(|x| x.1).map_or(0, |x| x + 1);
                if !(saved..=e.hist.len()).any(|k| same_hist(&got, &e.hist[..k])) {
                    let w: Vec<String> = e.hist.iter().map(|x| x.0.clone()).collect();
                    return bad("history", diff("history entries", &got, &w[w.len().saturating_sub(100)..]));
                }
            }
        }
        let _ = m;
        if self.prop == "C28" && !self.unharmed(t) {
            return bad("changed", "files the session did not name have changed");
        }
        Ok(())
    }
    fn unharmed(&self, t: &Trace) -> bool {
        let Some(end) = t.end() else { return true };
        NAMED.iter().all(|(p, c)| match c {
            Some(c) => t.file(end, p) == Some(c.as_bytes()),
            None => end.nodes.contains_key(p.as_bytes()),
        })
    }
    fn faults(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let mut pts: Vec<Point> = vec![];
        let mut begun = false;
        for e in &t.evs {
            match e {
                Ev::Input { .. } => begun = true,
                // without a terminal: once the interrupt handler is in place
                Ev::Thread { .. } if self.mode == 1 => begun = true,
                Ev::Sys { seq, cls, name, path, ret, .. } if begun => pts.push(Point { seq: *seq, cls: *cls, name: name.clone(), path: path.clone(), op: 0, ret: *ret }),
                _ => (),
            }
        }
        if pts.is_empty() {
            pts = points(t);
        }
        if pts.is_empty() || self.probe {
            return vec![];
        }
        let all: Vec<Point> = t.evs.iter().filter_map(|e| if let Ev::Sys { seq, cls, name, path, ret, .. } = e { Some(Point { seq: *seq, cls: *cls, name: name.clone(), path: path.clone(), op: 0, ret: *ret }) } else { None }).collect();
        let mut v = vec![];
        while v.len() < budget {
            let mut m = if r.chance(1, 2) { soft(r) } else { Mods { reseed: Some(r.next() >> 1), ..Default::default() } };
            match &self.prop[..] {
                "C17" => {
                    for _ in 0..1 + r.n(4) {
                        let p = r.pick(&pts);
                        m.sigs.push((p.seq, if r.chance(5, 6) { 2 } else { *r.pick(&[17, 18, 28]) }));
                    }
                }
                "C28" if r.chance(1, 3) => {
                    let mut raw = false;
                    let mut near: Vec<(u64, u32, String)> = vec![];
                    for x in &t.evs {
                        match x {
                            Ev::Mode(k) => raw = k.starts_with("raw"),
                            Ev::Sys { seq, cls, path, .. } if raw && [C_OPEN, C_STAT, C_DIR, C_CHDIR].contains(cls) => near.push((*seq, *cls as u32, path.clone())),
                            _ => (),
                        }
                    }
                    if !near.is_empty() {
                        let (seq, cls, path) = r.pick(&near).clone();
                        let errs = legal_errs(cls as _, &path);
                        if !errs.is_empty() {
                            m = fault(seq, FaultKind::Errno(*r.pick(&errs)));
                        }
                    }
                }
                "C16" | "C28" => {
                    if r.chance(1, 2) {
                        for _ in 0..1 + r.n(3) {
                            m.sigs.push((r.pick(&pts).seq, *r.pick(&[17, 18, 28])));
                        }
                    }
                }
                _ => {
                    let key = if self.prop == "C18" { ".dune-history" } else { ".dune-prelude" };
                    let near: Vec<&Point> = all.iter().filter(|p| p.path.contains(key) && p.cls != 0).collect();
                    match r.n(4) {
                        0 => {
                            let p = if self.prop == "C19" { r.pick(&all) } else { r.pick(&pts) };
                            m = fault(p.seq, FaultKind::Kill);
                        }
                        1 | 2 if !near.is_empty() => {
                            let p = *r.pick(&near);
                            let errs = legal_errs(p.cls, &p.path);
                            if !errs.is_empty() {
                                m.knobs.remove("frate");
                                m.knobs.remove("fmask");
                                m.reseed = None;
                                m.knobs.clear();
                                m.faults.push(FaultSpec { seq: p.seq, kind: FaultKind::Errno(*r.pick(&errs)) });
                            }
                        }
                        _ => {
                            if r.chance(1, 3) {
                                m.sigs.push((r.pick(&pts).seq, *r.pick(&[17, 28])));
                            }
                        }
                    }
                }
            }
            if m.sigs.iter().any(|x| x.1 == 28) {
                // the editor's question to the terminal does not survive an interrupted read just
                // after the window changed (the known finding about that question)
                m.knobs.remove("frate");
                m.knobs.remove("fmask");
                m.knobs.remove("fshort");
            }
            v.push(m);
        }
        v
    }
}
fn errb_has(b: &[u8], t: &str) -> bool {
    plain(b).contains(t)
}
fn is_trunc(path: &str) -> bool {
    path.rsplit('|').next().and_then(|x| i64::from_str_radix(x, 8).ok()).unwrap_or(0) & 0o1000 != 0
}

// ------------------------------------------------------------------ generation
fn stmts(r: &mut Rng, prop: &str, mode: u8, n: &mut u32, thorough: bool) -> Vec<S> {
    let k = 1 + r.n(if thorough { 4 } else { 3 });
    let mut v = vec![];
    for _ in 0..k {
        *n += 2;
        let id = *n;
        let dirs = ["d1", "..", "/tmp", "/home/u", "/nonexist", "/home/u/d1"];
        if prop == "C28" && r.chance(1, 2) {
            let p = *r.pick(&["alpha-1", "alpha-2", "alphabet", "beta.txt", "my dir/eps", "my dir/eta zeta", "eps", "eta zeta", "d1/gamma", "gamma", "delta/zeta", "d1/delta/zeta", "../alpha-1", "../beta.txt", "d1/../d1/log.old", "/home/u/d1/gamma", "/home/u/my dir/eps", "/home/u/alpha-2", "/home/u/my dir/eta zeta", "/tmp/alp", "./alphabet", "to", "alp"]);
            v.push(S::Rd(p.into()));
            continue;
        }
        if prop == "C28" && r.chance(1, 24) {
            v.push(S::Gone);
            continue;
        }
        if prop == "C28" && r.chance(1, 5) {
            v.push(S::Cd(r.pick(&["my dir", "/home/u/my dir", "d1", "..", "/home/u/d1/delta", "delta", "../d1", "/home/u", "/home/u", "/tmp"]).to_string()));
            continue;
        }
        v.push(match r.n(24) {
            0..=4 => S::Log(id),
            5 => S::Out(id),
            6 if r.chance(1, 2) => S::Show(id),
            6 => S::Val(id, r.n(VALS.len())),
            7 => S::Set(r.n(3), r.range(0, 50)),
            8 => S::Inc(r.n(3), r.range(1, 9)),
            9 => S::Var(r.n(3)),
            10 => {
                if r.chance(1, 2) {
                    S::NoProg(id)
                } else {
                    S::Div
                }
            }
            11..=14 => {
                let p = match mode {
                    0 => r.n(PROGS.len()),
                    _ => *r.pick(&[0, 1, 2, 3, 4, 8, 9]),
                };
                if r.chance(1, 5) {
                    v.push(S::Bare(*r.pick(&[0, 1, 3, 4, 8, 9])));
                    continue;
                }
                let p = if prop != "C17" && (p == 6 || p == 7) { 2 } else { p };
                S::Prog(p)
            }
            15 => S::Cd(r.pick(&dirs).to_string()),
            16 => S::Sleep(*r.pick(&[1, 20, 1500])),
            17 => S::ForLog(id, id + 1),
            18 => S::If(r.chance(1, 2), id, id + 1),
            19 => S::Def(r.n(2), id, r.range(1, 5)),
            20 => S::Call(r.n(2), r.range(0, 9)),
            21 if r.chance(1, 3) => S::Prompt(id),
            22 if prop == "C17" => S::Sleep(100),
            _ => {
                if prop == "C18" || r.chance(1, 3) {
                    S::Mark
                } else {
                    S::Log(id)
                }
            }
        });
    }
    v
}
pub fn make(prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    if seed == PROBE {
        let mut s = Scen::new(1);
        s.dir("/home/u/d1");
        s.file(LOG, b"");
        s.file(PRE, b"(\"<p\" + \"re>\") >>> \"/home/u/log\"\n");
        s.knob("cprdelay", 2_000_000);
        let e = |n| Item::Entry { st: vec![S::Log(n), S::Out(n)], lay: 0, style: 0, ahead: false, lead: false };
        return Box::new(SessCase { prop: prop.into(), base: s, items: vec![e(1), e(2)], mode: 0, prior: Prior::default(), pre: PreKind::Normal, typeseed: 1, probe: true });
    }
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.dir("/home/u/d1");
    s.file(LOG, b"");
    for p in PROGS {
        s.prog(p.0, p.1);
    }
    if prop == "C28" {
        for (p, c) in NAMED {
            match c {
                Some(c) => s.file(p, c.as_bytes()),
                None => s.dir(p),
            }
        }
        s.link("/home/u/alphx", "nowhere");
        if r.chance(1, 3) {
            s.knob("dtunknown", 1);
        }
    }
    if r.chance(1, 2) {
        s.knob("stepns", *r.pick(&[100, 500, 20_000]));
    }
    let mode = if prop == "C19" || prop == "C28" { 0 } else { *r.pick(&[0, 0, 0, 0, 0, 1, 2]) };
    // prelude
    let ans = |r: &mut Rng| -> Vec<u8> {
        let a: &[&str] = &["y\r", "y\r", " Y \r", "Y\n", "yes\r", "n\r", "\r", "yy\r", "N\r", "no y\r", "y n\r", "yes please\r", "\u{fd}\r", "\x03", "y\x03", "\x04", "n\x7fy\r", "y\x7fn\r", "'y'\r", "y.\r", "1\r"];
        r.pick(a).as_bytes().to_vec()
    };
    let normal = "(\"<p\" + \"re>\") >>> \"/home/u/log\"\n";
    let pre = if prop != "C19" {
        PreKind::Normal
    } else {
        match r.n(10) {
            0..=2 => PreKind::Absent(ans(&mut r)),
            3 | 4 => PreKind::Failing(format!("{}{}", normal, *r.pick(&["; nofnpre 1", ";1 // 0", "; echo \"a\" +", ";undefinedvar + 1"])), ans(&mut r)),
            5 => PreKind::BadUtf8(ans(&mut r)),
            6 => PreKind::Dir(ans(&mut r)),
            7 => PreKind::Dangling(ans(&mut r)),
            8 => PreKind::Link,
            _ => PreKind::Normal,
        }
    };
    match &pre {
        PreKind::Normal => s.file(PRE, normal.as_bytes()),
        PreKind::Failing(t, _) => s.file(PRE, t.as_bytes()),
        PreKind::BadUtf8(_) => s.file(PRE, b"echo 1\n\xff\xfe\n"),
        PreKind::Dir(_) => s.dir(PRE),
        PreKind::Dangling(_) => s.link(PRE, "d1/mypre"),
        PreKind::Link => {
            s.file("/home/u/d1/mypre", normal.as_bytes());
            s.link(PRE, "d1/mypre");
        }
        PreKind::Absent(_) => (),
    }
    // earlier history
    let mut n = 0u32;
    let mut prior = Prior::default();
    let want = if prop == "C18" { 3 } else { 1 };
    if r.chance(want, 4) {
        let old = r.chance(1, 4);
        let k = *r.pick(&[0, 1, 2, 5, 5, 97, 98, 99, 100]);
        let mut texts = vec![];
        for _ in 0..k {
            n += 1;
            let st = vec![if r.chance(1, 2) { S::Out(n) } else { S::Log(n) }];
            let t = if !old && r.chance(1, 8) { SessCase::layout(&st, 1).join("\n") } else { st[0].text() };
            texts.push(t.clone());
            prior.loaded.push((t, st));
        }
        match r.n(if prop == "C18" { 8 } else { 20 }) {
            0 => {
                let mut b = hist_text(&texts);
                b.extend(b"echo \xff\n");
                prior = Prior { text: Some(b), loaded: vec![], broken: true };
            }
            1 => {
                s.dir(HIST);
                prior = Prior { text: None, loaded: vec![], broken: true };
            }
            _ if old => prior.text = Some(texts.iter().map(|x| x.clone() + "\n").collect::<String>().into_bytes()),
            _ => prior.text = Some(hist_text(&texts)),
        }
        if let Some(t) = &prior.text {
            s.file(HIST, t);
        }
    }
    let cnt = 2 + r.n(if thorough { 16 } else { 8 });
    let mut items = vec![];
    n += 100;
    for _ in 0..cnt {
        let w = r.n(20);
        items.push(match w {
            0 => Item::Empty(*r.pick(&["", "", "  ", "# remark", " # remark"])),
            1 | 2 if mode == 0 => {
                let t = *r.pick(&["", "echo 1", "(\"<x\" + \">\") >>> \"/home/u/log\"", "{ let a0 = 99", "\u{e9}\u{4e16}"]);
                Item::Typo(t.into(), if prop == "C17" { r.n(3) as u8 } else { 0 })
            }
            3 => {
                let junk: &[&str] = &[")", "\"\\q\"", "\u{e9}{", "1..", "let = 3", "\"\\u{110000}\"", "\"\\u{d800}\"", "\"\\u{1234567}\"", "{ \u{4e16} }", "echo )", "] ]", "99999999999999999999", "1.2.3", "~>", "0x", "\"\\u{12 }\""];
                let open: &[&str] = &["for x in", "x ->", "let x", "if", "{a:", "[1,"];
                let ls: &[&[&str]] = &[&["{"], &["echo ("], &["if True {", "(\"<bad\" + \">\") >>> \"/home/u/log\""], &["let f1 = x -> {"], &["{", "{", "let a1 = 77;"], &["{", "   ", "let a1 = 78;", " "]];
                let ls: Vec<String> = match r.n(5) {
                    0 | 1 => {
                        let mut v = vec![r.pick(junk).to_string()];
                        for _ in 0..*r.pick(&[0, 0, 1, 2]) {
                            v.push(r.pick(&["  ", "echo 1", "(\"<bad\" + \">\") >>> \"/home/u/log\"", ")", "\"\\q\""]).to_string());
                        }
                        v
                    }
                    2 => {
                        let mut v = vec![r.pick(open).to_string()];
                        for _ in 0..*r.pick(&[0, 1, 2]) {
                            v.push("  ".into());
                        }
                        v
                    }
                    _ => r.pick(ls).iter().map(|x| x.to_string()).collect(),
                };
                let cc = mode == 0 && r.chance(1, 2);
                Item::Unfinished(ls, cc, if cc { r.pick(&["", "}", "echo 2"]).to_string() } else { String::new() })
            }
            16 if prop == "C28" && r.chance(1, 2) => Item::HintBlank(1 + r.n(4), 2 + r.n(30)),
            16 | 17 if prop == "C28" => Item::Hint(1 + r.n(5), 5 + r.n(30)),
            15 if prop == "C28" && r.chance(2, 3) => Item::Word(*r.pick(&["l", "s", "it", "rm", "h", "x", "t", "ta", "cp", "ri", "ad", "hea", "l", "ls", "p -r"])),
            15 if prop == "C28" && r.chance(1, 4) => Item::HintExit(1 + r.n(5)),
            4 | 5 if mode == 0 => Item::Recall(1 + r.n(4), r.n(3) as u8),
            6 if prop == "C18" || r.chance(1, 6) => {
                // the same entry again
                match items.iter().rev().find(|x| matches!(x, Item::Entry { .. })) {
                    Some(x) => x.clone(),
                    None => Item::Empty(""),
                }
            }
            7 if r.chance(1, 4) => {
                let mut st = stmts(&mut r, prop, mode, &mut n, false);
                st.push(S::Exit(*r.pick(&[0, 1, 7, 255])));
                Item::Entry { st, lay: 0, style: r.n(10) as u8, ahead: false, lead: false }
            }
            _ => Item::Entry {
                st: stmts(&mut r, prop, mode, &mut n, thorough),
                lay: *r.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]),
                style: if prop == "C28" && r.chance(4, 5) { 10 + r.n(2) as u8 } else if mode == 0 { r.n(10) as u8 } else { 0 },
                ahead: r.chance(1, 2),
                lead: r.chance(1, 12),
            },
        });
    }
    let typeseed = r.next();
    Box::new(SessCase { prop: prop.into(), base: s, items, mode, prior, pre, typeseed, probe: false })
}
