//! Engine G: the terminal (C29): raw and cooked mode, the window's size, single keys, and what the
//! console functions draw, as followed by a small terminal.
use crate::base::*;
use crate::runner::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

/// keys: name, what the terminal sends, how the value is found in console@keyboard@keys (or the text)
const NAMED: &[(&str, &[&str])] = &[
    ("up", &["\x1b[A", "\x1bOA", "\x1b[1;5A"]),
    ("down", &["\x1b[B", "\x1bOB", "\x1b[1;2B"]),
    ("right", &["\x1b[C", "\x1bOC"]),
    ("left", &["\x1b[D", "\x1bOD", "\x1b[1;3D"]),
    ("home", &["\x1b[H", "\x1b[1~", "\x1b[7~", "\x1bOH"]),
    ("end", &["\x1b[F", "\x1b[4~", "\x1b[8~", "\x1bOF"]),
    ("page-up", &["\x1b[5~"]),
    ("page-down", &["\x1b[6~"]),
    ("delete", &["\x1b[3~", "\x1b[3;5~"]),
    ("insert", &["\x1b[2~"]),
    ("back-tab", &["\x1b[Z"]),
    ("f1", &["\x1bOP", "\x1b[11~"]),
    ("f2", &["\x1bOQ", "\x1b[12~"]),
    ("f3", &["\x1bOR", "\x1b[13~"]),
    ("f4", &["\x1bOS", "\x1b[14~"]),
    ("f5", &["\x1b[15~"]),
    ("f6", &["\x1b[17~"]),
    ("f7", &["\x1b[18~"]),
    ("f8", &["\x1b[19~"]),
    ("f9", &["\x1b[20~"]),
    ("f10", &["\x1b[21~"]),
    ("f11", &["\x1b[23~"]),
    ("f12", &["\x1b[24~"]),
    ("enter", &["\r"]),
    ("tab", &["\t"]),
    ("backspace", &["\x7f"]),
    ("esc", &["\x1b"]),
];
#[derive(Clone, Debug, PartialEq)]
enum Key {
    /// a character (or, with escape or control, the character meant)
    C(&'static str, &'static str),
    N(usize, usize),
    /// no key: the terminal says it was selected
    Focus,
    Win(u16, u16),
}
impl Key {
    fn bytes(&self) -> &'static str {
        match self {
            Key::C(b, _) => b,
            Key::N(i, j) => NAMED[*i].1[*j],
            Key::Focus => "\x1b[I",
            Key::Win(..) => "",
        }
    }
}
#[derive(Clone, Debug)]
enum D {
    Write(i64, i64, String),
    To(i64, i64),
    /// up, down, left, right
    Move(usize, i64),
    Save,
    Restore,
    Show(bool),
    Alt(bool),
    Clear,
    Title(String),
    Flush,
    Print(String, u8),
    Prog(String, bool),
}
#[derive(Clone, Debug)]
enum Op {
    Raw,
    Cooked,
    Size,
    /// read until a "." (raw) or the end of the line (cooked)
    Keys { keys: Vec<Key>, seed: u64, ahead: bool },
    Draw(Vec<D>),
    Sleep(i64, Option<(u16, u16)>),
    Input(String),
    Line(String),
    Pw(String),
}
struct ConCase {
    base: Scen,
    ops: Vec<Op>,
    /// the terminal is standard input
    tin: bool,
    /// there is a terminal at all
    has: bool,
}
impl D {
    fn text(&self) -> String {
        match self {
            D::Write(x, y, t) => format!("console@write {} {} {}", num(*x), num(*y), dstr(t)),
            D::To(x, y) => format!("console@cursor@move-to {} {}", num(*x), num(*y)),
            D::Move(k, n) => format!("console@cursor@move-{} {}", ["up", "down", "left", "right"][*k], num(*n)),
            D::Save => "console@cursor@save-position ()".into(),
            D::Restore => "console@cursor@restore-position ()".into(),
            D::Show(true) => "console@cursor@show ()".into(),
            D::Show(false) => "console@cursor@hide ()".into(),
            D::Alt(true) => "console@mode@alternate ()".into(),
            D::Alt(false) => "console@mode@normal ()".into(),
            D::Clear => "console@clear ()".into(),
            D::Title(t) => format!("console@title {}", dstr(t)),
            D::Flush => "console@flush ()".into(),
            D::Print(t, 0) => format!("print {}", dstr(t)),
            D::Print(t, _) => format!("println {}", dstr(t)),
            D::Prog(t, _) => format!("p{:x} 1", hash64(t.as_bytes())),
        }
    }
}
fn num(n: i64) -> String {
    if n < 0 { format!("(0 - {})", -n) } else { n.to_string() }
}
// ------------------------------------------------------------------ a terminal
#[derive(Clone, Debug, PartialEq)]
struct Screen {
    r: i64,
    c: i64,
    saved: Option<(i64, i64)>,
    main: (i64, i64),
    hidden: bool,
    alt: bool,
    title: String,
    cells: BTreeMap<(bool, i64, i64), char>,
    odd: Option<String>,
}
impl Screen {
    fn new() -> Screen {
        let mut s = Screen { r: 1, c: 1, saved: None, main: (1, 1), hidden: false, alt: false, title: "shell".into(), cells: BTreeMap::new(), odd: None };
        for r in 1..40 {
            for c in 1..60 {
                s.cells.insert((false, r, c), '#');
            }
        }
        s.r = 17;
        s.c = 23;
        s
    }
    fn put(&mut self, ch: char) {
        match ch {
            '\n' => {
                self.r += 1;
                self.c = 1;
            }
            '\r' => self.c = 1,
            '\x08' => self.c = (self.c - 1).max(1),
            ch => {
                self.cells.insert((self.alt, self.r, self.c), ch);
                self.c += 1;
            }
        }
    }
    fn puts(&mut self, s: &str) {
        s.chars().for_each(|c| self.put(c));
    }
    fn go(&mut self, r: i64, c: i64) {
        self.r = r.max(1);
        self.c = c.max(1);
    }
    fn clear(&mut self) {
        let a = self.alt;
        self.cells.retain(|k, _| k.0 != a);
    }
    fn alt(&mut self, on: bool) {
        if on && !self.alt {
            self.main = (self.r, self.c);
            self.alt = true;
            self.clear();
        } else if !on && self.alt {
            self.alt = false;
            (self.r, self.c) = self.main;
        }
    }
    fn feed(&mut self, s: &str) {
        let v: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < v.len() {
            if v[i] != '\x1b' {
                self.put(v[i]);
                i += 1;
                continue;
            }
            match v.get(i + 1) {
                Some('[') => {
                    let mut j = i + 2;
                    while j < v.len() && !('\x40'..='\x7e').contains(&v[j]) {
                        j += 1;
                    }
                    let par: String = v[i + 2..j.min(v.len())].iter().collect();
                    let n: Vec<Option<i64>> = par.split(';').map(|x| if x.is_empty() { Some(0) } else { x.parse().ok() }).collect();
                    let p = |k: usize| n.get(k).copied().flatten().unwrap_or(0).max(1);
                    let fin = v.get(j).copied().unwrap_or('\0');
                    let good = n.iter().all(|x| x.map_or(false, |x| x >= 0)) && !par.contains(['+', '-']);
                    match (fin, &par[..]) {
                        ('A', _) if good => self.go(self.r - p(0), self.c),
                        ('B' | 'e', _) if good => self.go(self.r + p(0), self.c),
                        ('C' | 'a', _) if good => self.go(self.r, self.c + p(0)),
                        ('D', _) if good => self.go(self.r, self.c - p(0)),
                        ('E', _) if good => self.go(self.r + p(0), 1),
                        ('F', _) if good => self.go(self.r - p(0), 1),
                        ('G' | '`', _) if good => self.go(self.r, p(0)),
                        ('d', _) if good => self.go(p(0), self.c),
                        ('H' | 'f', _) if good => self.go(p(0), p(1)),
                        ('s', "") => self.saved = Some((self.r, self.c)),
                        ('u', "") => {
                            if let Some((r, c)) = self.saved {
                                self.go(r, c);
                            }
                        }
                        ('h', "?25") => self.hidden = false,
                        ('l', "?25") => self.hidden = true,
                        ('h', "?1049") => self.alt(true),
                        ('l', "?1049") => self.alt(false),
                        ('J', "2") => self.clear(),
                        ('J', "3") => (),
                        ('m', _) => (),
                        _ => self.odd = Some(format!("ESC [ {} {:?}", par, fin)),
                    }
                    i = j + 1;
                }
                Some(']') => {
                    let mut j = i + 2;
                    while j < v.len() && v[j] != '\x07' && v[j] != '\x1b' {
                        j += 1;
                    }
                    if v.get(j) != Some(&'\x07') && v.get(j + 1) != Some(&'\\') {
                        self.odd = Some("a title that does not end".into());
                    }
                    let par: String = v[i + 2..j].iter().collect();
                    match par.split_once(';') {
                        Some(("0" | "2", t)) => self.title = t.into(),
                        _ => self.odd = Some(format!("ESC ] {:?}", par)),
                    }
                    i = if v.get(j) == Some(&'\x07') { j + 1 } else if v.get(j + 1) == Some(&'\\') { j + 2 } else { j };
                }
                Some('7') => {
                    self.saved = Some((self.r, self.c));
                    i += 2;
                }
                Some('8') => {
                    if let Some((r, c)) = self.saved {
                        self.go(r, c);
                    }
                    i += 2;
                }
                x => {
                    self.odd = Some(format!("ESC {:?}", x));
                    i += 2;
                }
            }
        }
    }
    fn draw(&mut self, d: &D) {
        match d {
            D::Write(x, y, t) => {
                for (i, l) in t.lines().enumerate() {
                    for (j, ch) in l.chars().enumerate() {
                        self.cells.insert((self.alt, y + i as i64, x + j as i64), ch);
                    }
                }
            }
            D::To(x, y) => self.go(*y, *x),
            D::Move(0, n) => self.go(self.r - n, self.c),
            D::Move(1, n) => self.go(self.r + n, self.c),
            D::Move(2, n) => self.go(self.r, self.c - n),
            D::Move(_, n) => self.go(self.r, self.c + n),
            D::Save => self.saved = Some((self.r, self.c)),
            D::Restore => {
                if let Some((r, c)) = self.saved {
                    self.go(r, c);
                }
            }
            D::Show(x) => self.hidden = !x,
            D::Alt(x) => self.alt(*x),
            D::Clear => {
                self.clear();
                self.go(1, 1);
            }
            D::Title(t) => self.title = t.clone(),
            D::Flush => (),
            D::Print(t, k) => {
                self.puts(t);
                if *k > 0 {
                    self.put('\n');
                }
            }
            D::Prog(t, nl) => {
                self.puts(t);
                if *nl {
                    self.put('\n');
                }
            }
        }
    }
    fn diff(&self, want: &Screen) -> Option<String> {
        if let Some(o) = &self.odd {
            return Some(format!("the terminal got {}", o));
        }
        for k in self.cells.keys().chain(want.cells.keys()) {
            if self.cells.get(k) != want.cells.get(k) {
                return Some(format!("row {} column {} of the {} screen holds {:?}, expected {:?}", k.1, k.2, if k.0 { "alternate" } else { "normal" }, self.cells.get(k), want.cells.get(k)));
            }
        }
        if (self.r, self.c) != (want.r, want.c) {
            return Some(format!("the cursor is at row {} column {}, expected row {} column {}", self.r, self.c, want.r, want.c));
        }
        if self.hidden != want.hidden {
            return Some(format!("the cursor is {}", if self.hidden { "hidden" } else { "shown" }));
        }
        if self.alt != want.alt {
            return Some("the wrong screen is shown".into());
        }
        if self.title != want.title {
            return Some(format!("the title is {:?}, expected {:?}", self.title, want.title));
        }
        None
    }
}
// ------------------------------------------------------------------ the script
const TABLE: usize = 900;
impl ConCase {
    fn expr(&self, o: &Op, raw: bool) -> String {
        match o {
            Op::Raw => "(console@mode@raw ())".into(),
            Op::Cooked => "(console@mode@cooked ())".into(),
            Op::Size => "[(console@width ()), (console@height ())]".into(),
            Op::Keys { .. } => format!("({} [] (console@keyboard@read-key ()))", if raw { "rk" } else { "rl" }),
            Op::Draw(v) => format!("{{ {} }}", v.iter().map(|d| d.text() + "; ").collect::<String>() + "None"),
            Op::Sleep(n, _) => format!("(time@sleep {})", n),
            Op::Input(_) => "(input \"\")".into(),
            Op::Line(_) => "(console@keyboard@read-line ())".into(),
            Op::Pw(_) => "(console@keyboard@read-password ())".into(),
        }
    }
    /// each kept operation with the mode it runs in, when no mode change fails
    fn modes(&self, keep: &[bool]) -> Vec<(usize, bool)> {
        let mut raw = false;
        let mut v = vec![];
        for (k, op) in self.ops.iter().enumerate() {
            if !keep[k] {
                continue;
            }
            // reading lines is for the cooked mode, and there is nothing to read without a terminal
            match op {
                Op::Line(_) | Op::Pw(_) if raw => continue,
                Op::Input(_) | Op::Line(_) if !self.tin => continue,
                Op::Pw(_) if !self.has => continue,
                _ => (),
            }
            v.push((k, raw));
            match op {
                Op::Raw if self.has => raw = true,
                Op::Cooked => raw = false,
                _ => (),
            }
        }
        v
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut o = String::from("let rk = acc -> k -> if (k == \".\") { acc } else { rk (acc + [k]) (console@keyboard@read-key ()) };\nlet rl = acc -> k -> if (k == \"\\n\") { acc } else { rl (acc + [k]) (console@keyboard@read-key ()) };\n");
        let l: Vec<String> = NAMED.iter().map(|n| format!("console@keyboard@keys@{}", n.0)).collect();
        let _ = writeln!(o, "debug [\"@@{}\", [{}]];", TABLE, l.join(", "));
        for (k, raw) in self.modes(keep) {
            let _ = writeln!(o, "debug [\"@@{}\", (err@try ({}) (e -> [\"ERR\", e@code, e@message]))];", k, self.expr(&self.ops[k], raw));
        }
        o
    }
    fn user(&self, keep: &[bool]) -> Vec<(String, i64, Act)> {
        let mut u: Vec<(String, i64, Act)> = vec![];
        // what the last action was for: keys read one at a time, with nothing else read since
        let mut joinable = false;
        let mut sleeping = false;
        for (k, raw) in self.modes(keep) {
            let m = if raw { "r" } else { "c" };
            match &self.ops[k] {
                Op::Sleep(_, w) => {
                    if let Some((r, c)) = w {
                        u.push(("z".into(), 1000, Act::Win(*r, *c)));
                        joinable = false;
                    }
                    sleeping = true;
                    continue;
                }
                Op::Input(t) => {
                    u.push(("r".into(), 1000, Act::Keys(format!("{}\r", t).into_bytes())));
                    joinable = false;
                }
                Op::Line(t) | Op::Pw(t) => {
                    u.push(("c".into(), 1000, Act::Keys(format!("{}\r", t).into_bytes())));
                    joinable = false;
                }
                Op::Keys { .. } if !self.has => continue,
                Op::Keys { keys, seed, ahead } => {
                    let mut r = Rng::new(*seed);
                    let dl = |r: &mut Rng| *r.pick(&[0, 0, 1_000, 300_000, 40_000_000, 3_000_000_000]);
                    if !raw {
                        let mut b = vec![];
                        for x in keys {
                            if let Key::C(t, v) = x {
                                if t == v {
                                    b.extend(t.bytes());
                                }
                            }
                        }
                        b.push(b'\r');
                        u.push((m.into(), dl(&mut r), Act::Keys(b)));
                        joinable = false;
                        sleeping = false;
                        continue;
                    }
                    let style = r.n(4);
                    let first = std::cell::Cell::new(true);
                    let mut cur: Vec<u8> = vec![];
                    let mut ends = false; // the bytes so far are only unambiguous when nothing follows at once
                    let send = |u: &mut Vec<(String, i64, Act)>, r: &mut Rng, b: Vec<u8>, joinable: bool, esc: bool| {
                        if b.is_empty() {
                            return;
                        }
                        if first.get() && *ahead && sleeping {
                            u.push(("z".into(), 1000, Act::Keys(b)));
                        } else if first.get() && *ahead && joinable && !esc {
                            if let Some((_, _, Act::Keys(v))) = u.last_mut() {
                                v.extend(b);
                            }
                        } else {
                            u.push((m.into(), dl(r), Act::Keys(b)));
                        }
                        first.set(false);
                    };
                    for x in keys {
                        if let Key::Win(a, b) = x {
                            send(&mut u, &mut r, std::mem::take(&mut cur), joinable, ends);
                            u.push((m.into(), dl(&mut r), Act::Win(*a, *b)));
                            first.set(false);
                            continue;
                        }
                        if ends {
                            send(&mut u, &mut r, std::mem::take(&mut cur), joinable, false);
                            ends = false;
                        }
                        let b = x.bytes();
                        cur.extend(b.bytes());
                        ends = b == "\x1b";
                        let cut = match style {
                            0 => false,
                            1 => true,
                            _ => r.chance(1, 3),
                        };
                        if cut {
                            // sometimes within a character or a control sequence, but never right after the escape
                            let part = b.len() > 1 && r.chance(1, 2);
                            let n = if part { b.len() - if b.starts_with('\x1b') { (b.len() - 2).min(1) } else { 1 } } else { b.len() };
                            let rest = cur.split_off(cur.len() - (b.len() - n));
                            send(&mut u, &mut r, std::mem::take(&mut cur), joinable, false);
                            cur = rest;
                            ends = false;
                        }
                    }
                    if ends {
                        send(&mut u, &mut r, std::mem::take(&mut cur), joinable, false);
                    }
                    cur.push(b'.');
                    send(&mut u, &mut r, cur, joinable, false);
                    joinable = true;
                }
                // what was typed ahead stays typed
                Op::Raw if raw => continue,
                Op::Raw | Op::Cooked => joinable = false,
                _ => continue,
            }
            sleeping = false;
        }
        u
    }
}
impl Case for ConCase {
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        for o in &self.ops {
            if let Op::Draw(v) = o {
                for t in v {
                    if let D::Prog(t, nl) = t {
                        s.prog(&format!("p{:x}", hash64(t.as_bytes())), &format!("out {} exit 0", hex(format!("{}{}", t, if *nl { "\n" } else { "" }).as_bytes())));
                    }
                }
            }
        }
        s.script(&self.text(keep));
        s.user = self.user(keep);
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = format!("standard input {}, standard output {}\n{}", if self.tin { "a terminal" } else if self.has { "empty (the terminal is /dev/tty)" } else { "empty, and there is no terminal" }, self.base.stdout, self.text(keep));
        for (t, d, a) in self.user(keep) {
            let _ = writeln!(o, "  user ({}, +{} ns): {}", t, d, match a {
                Act::Keys(b) => format!("types {:?}", String::from_utf8_lossy(&b)),
                x => format!("{:?}", x),
            });
        }
        o
    }
    fn check(&self, keep: &[bool], _m: &Mods, t: &Trace) -> Chk {
        let out = t.out(2, 0);
        let got = marks(&out);
        let all = t.out(2, -1);
        let text = String::from_utf8_lossy(&all).into_owned();
        let ops = self.modes(keep);
        let fin = t.how == "exit" && !t.code.contains("101");
        let at: Vec<usize> = t.evs.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Mark(i) if t.snaps[*i].why == "mark")).map(|x| x.0).collect();
        let anyhard = hard_in(t, 0, t.evs.len());
        if !fin && !(anyhard && (t.how == "deadlock" || t.how == "signal" && ["2", "3", "20"].contains(&t.code.trim()))) {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        let names = match got.get(&TABLE).and_then(|v| v.strs()) {
            Some(v) if v.len() == NAMED.len() => v,
            // the script itself could not be read
            _ if anyhard && got.is_empty() => return Ok(()),
            _ => return bad("keys", format!("the table of keys is {:?}", got.get(&TABLE))),
        };
        // ---- the terminal at each mark
        let mut raw = false; // what the terminal should be
        let mut init = String::new();
        let (mut settings, mut mode) = (String::new(), String::from("cooked-echo"));
        let mut ev = 0;
        let mut size = self.base.winsize.unwrap_or((24, 80));
        let mut wins = 0; // window changes (and other things that are no keys) not yet reported
        let mut from = text.find("\"@@900\"").map_or(0, |p| text[p..].find('\n').map_or(text.len(), |q| p + q + 1));
        for (n, (k, modelraw)) in ops.iter().enumerate() {
            let op = &self.ops[*k];
            let what = self.expr(op, *modelraw);
            let start = ev;
            let Some(&upto) = at.get(n + 1) else {
                if anyhard && !fin {
                    return Ok(());
                }
                return bad("incomplete", format!("{} of {} statements finished; standard error: {}", at.len().max(1) - 1, ops.len(), short(&t.out(3, 0))));
            };
            while ev <= upto {
                match &t.evs[ev] {
                    Ev::Settings(s) => {
                        if init.is_empty() {
                            init = s.clone();
                        }
                        settings = s.clone();
                    }
                    Ev::Mode(m) => mode = m.clone(),
                    Ev::Input { kind: 8, data, .. } => {
                        wins += 1;
                        let n: u64 = String::from_utf8_lossy(data).parse().unwrap_or(0);
                        size = ((n / 10000) as u16, (n % 10000) as u16);
                    }
                    _ => (),
                }
                ev += 1;
            }
            let hard = hard_in(t, if n == 0 { 0 } else { start }, ev);
            let Some(v) = got.get(k) else { return bad("value", format!("{} printed no value; standard error: {}", what, short(&t.out(3, 0)))) };
            let err = v.err().is_some();
            // ---- the mode
            match op {
                Op::Raw | Op::Cooked => {
                    let on = matches!(op, Op::Raw);
                    let can = self.has || !on;
                    if err && can && !hard {
                        return bad("refused", format!("{} failed although nothing was wrong: {:?}", what, v));
                    }
                    if !err && !can {
                        return bad("accepted", format!("{} succeeded without a terminal", what));
                    }
                    if !err {
                        raw = on;
                    }
                }
                Op::Keys { .. } | Op::Input(_) | Op::Line(_) | Op::Pw(_) if hard => return Ok(()),
                _ => (),
            }
            let now = mode.starts_with("raw");
            if raw && mode != "raw-noecho-nosig" {
                return bad("mode", format!("after {} the terminal is {} although raw mode was asked for", what, mode));
            }
            if !raw && (now || settings != init) {
                return bad("mode", format!("after {} the terminal is {}{}", what, mode, if now { "" } else { ", and its settings are not those it had before" }));
            }
            // a mode change that failed: what follows is typed for another mode
            if raw != (match op {
                Op::Raw => self.has,
                Op::Cooked => false,
                _ => *modelraw,
            }) {
                return Ok(());
            }
            // ---- what it drew
            let end = text[from..].find(&format!("[\"@@{}\",", k)).map(|p| from + p);
            let Some(end) = end else { return bad("output", format!("the mark of {} is not in the output", what)) };
            let seg = text[from..end].to_string();
            from = text[end..].find('\n').map_or(text.len(), |p| end + p + 1);
            match op {
                Op::Draw(d) => {
                    if err {
                        if hard {
                            return Ok(());
                        }
                        return bad("refused", format!("{} failed: {:?}", what, v));
                    }
                    let (mut a, mut b) = (Screen::new(), Screen::new());
                    a.feed(&seg);
                    d.iter().for_each(|x| b.draw(x));
                    if let Some(w) = a.diff(&b) {
                        return bad("drawing", format!("{}: {} (it wrote {:?})", what, w, seg));
                    }
                }
                Op::Input(_) => (),
                Op::Pw(_) | Op::Line(_) | Op::Raw | Op::Cooked | Op::Size | Op::Sleep(..) | Op::Keys { .. } => {
                    if !seg.is_empty() && self.base.stdout != "tty" {
                        return bad("output", format!("{} wrote {:?}", what, seg));
                    }
                }
            }
            // ---- what it gave
            match op {
                Op::Size => {
                    let known = self.base.stdout == "tty" && size.0 > 0 && size.1 > 0;
                    let want = if known { Val::List(vec![Val::Int(size.1 as i64), Val::Int(size.0 as i64)]) } else { Val::List(vec![Val::None, Val::None]) };
                    if *v != want {
                        return bad("size", format!("{} gave {:?}; the window has {} rows and {} columns{}", what, v, size.0, size.1, if self.base.stdout == "tty" { "" } else { ", but standard output is no terminal" }));
                    }
                }
                Op::Sleep(..) => {
                    if err {
                        return bad("refused", format!("{} failed: {:?}", what, v));
                    }
                }
                Op::Input(x) | Op::Pw(x) => {
                    if *v != Val::Str(x.clone()) {
                        return bad("line", format!("{} gave {:?}, the user entered {:?}", what, v, x));
                    }
                }
                Op::Line(x) => {
                    if *v != Val::Str(format!("{}\n", x)) {
                        return bad("line", format!("{} gave {:?}, the user entered {:?}", what, v, x));
                    }
                }
                Op::Keys { keys, .. } => {
                    if !self.has {
                        if !err {
                            return bad("accepted", format!("{} gave {:?} without a terminal", what, v));
                        }
                        continue;
                    }
                    let Val::List(l) = v else { return bad("keys", format!("{} gave {:?}", what, v)) };
                    let mut none = 0;
                    let mut g: Vec<String> = vec![];
                    for x in l {
                        match x {
                            Val::None => none += 1,
                            Val::Str(s) => g.push(s.clone()),
                            _ => return bad("keys", format!("{} gave {:?}", what, v)),
                        }
                    }
                    let mut want: Vec<String> = vec![];
                    for x in keys {
                        match x {
                            Key::C(a, s) if raw || a == s => want.push(s.to_string()),
                            Key::N(i, _) if raw => want.push(names[*i].clone()),
                            Key::Focus if raw => wins += 1,
                            _ => (),
                        }
                    }
                    if g != want {
                        let p = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
                        return bad("keys", format!("{} gave {:?}; key {} should be {:?} (the user typed {:?})", what, g, p, want.get(p), keys));
                    }
                    if none > wins {
                        return bad("keys", format!("{} gave {} times None; there were {} events that are no keys", what, none, wins));
                    }
                    wins -= none;
                }
                _ => (),
            }
        }
        if !anyhard && (t.code.trim() != "0" || !t.out(3, 0).is_empty()) {
            return bad("stderr", format!("the script ended with {}; standard error: {}", t.code, short(&t.out(3, 0))));
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let ctl: Vec<&Point> = pts.iter().filter(|p| p.cls == C_TTYCTL).collect();
        let oth: Vec<&Point> = pts.iter().filter(|p| matches!(p.cls, C_OPEN | C_PIPE | C_READ) && !p.path.is_empty()).collect();
        let mut v = vec![];
        while v.len() < budget {
            let mut m = if r.chance(2, 3) { soft(r) } else { Mods::default() };
            if r.chance(1, 3) && !ctl.is_empty() {
                for _ in 0..1 + r.n(2) {
                    m.faults.extend(fault(ctl[r.n(ctl.len())].seq, FaultKind::Errno(EIO)).faults);
                }
            } else if r.chance(1, 6) && !oth.is_empty() {
                let p = oth[r.n(oth.len())];
                let l = legal_errs(p.cls, &p.path);
                if !l.is_empty() {
                    m.faults.extend(fault(p.seq, FaultKind::Errno(*r.pick(&l))).faults);
                }
            }
            for _ in 0..r.n(4) {
                let s = *r.pick(&[17, 18]);
                if r.chance(1, 2) {
                    m.sigs.push((pts[r.n(pts.len())].seq + r.n(2) as u64, s));
                } else {
                    m.sigat.push((r.n(4_000_000_000u64 as usize) as i64, s));
                }
            }
            if m == Mods::default() {
                m.knobs.insert("fshort", 500);
                m.reseed = Some(r.next() >> 1);
            }
            v.push(m);
        }
        v
    }
}
fn word(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.n(4) {
        s.push_str(*r.pick(&["abc", "x", " ", "é", "日本", "0", "%", "[", "}", "- ", "Z;"]));
    }
    s.trim().to_string() + "w"
}
fn size(r: &mut Rng) -> (u16, u16) {
    *r.pick(&[(24, 80), (1, 1), (50, 132), (200, 400), (25, 80), (24, 81), (255, 256), (256, 255), (9999, 9999), (3, 1000), (0, 0)])
}
pub fn make(_prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.knob("stepns", *r.pick(&[500, 2000, 20000]));
    // a terminal hands over all that has been typed, and says so once
    s.knob("ttywhole", 1);
    let has = !r.chance(1, 14);
    let tin = has && !r.chance(1, 4);
    if tin {
        s.stdin = "tty".into();
    }
    if !has {
        s.fs.retain(|x| !matches!(x, Init::Dev(p, _) if p == "/dev/tty"));
    }
    if has && r.chance(2, 3) {
        s.stdout = "tty".into();
    } else if r.chance(1, 4) {
        s.stdout = "file /home/u/out".into();
        s.stdout = "sink".into();
    }
    s.ttybits = r.n(128) as i64;
    if r.chance(1, 2) {
        s.winsize = Some(size(&mut r));
    }
    let edit = r.chance(1, 3); // some lines are read as well; the window then stays as it is
    let focus = r.chance(1, 4);
    let n = 4 + r.n(if thorough { 14 } else { 8 });
    let mut ops = vec![];
    let mut raw = false;
    for i in 0..n {
        let op = match r.n(16) {
            _ if i == 0 && r.chance(1, 2) => {
                raw = true;
                Op::Raw
            }
            0 | 1 => {
                raw = true;
                Op::Raw
            }
            2 | 3 => {
                raw = false;
                Op::Cooked
            }
            4 | 5 => {
                if !edit && has && r.chance(1, 2) {
                    ops.push(Op::Size);
                    ops.push(Op::Sleep(r.range(1, 300), Some(size(&mut r))));
                }
                Op::Size
            }
            6 => Op::Sleep(r.range(1, 300), if edit || !has { None } else { Some(size(&mut r)) }),
            7 if edit => Op::Input(word(&mut r)),
            8 if edit && !raw => if r.chance(1, 2) { Op::Line(word(&mut r)) } else { Op::Pw(word(&mut r)) },
            7..=11 => {
                let mut keys = vec![];
                let most = if r.chance(1, 8) { 60 } else { 9 };
                for _ in 0..r.n(most) {
                    keys.push(match r.n(12) {
                        0..=3 => {
                            let i = r.n(NAMED.len());
                            let j = r.n(NAMED[i].1.len());
                            Key::N(i, j)
                        }
                        4 => {
                            let (a, b) = *r.pick(&[("\x03", "c"), ("\x04", "d"), ("\x1a", "z"), ("\x1bx", "x"), ("\x01", "a"), ("\x13", "s"), ("\x1bé", "é")]);
                            Key::C(a, b)
                        }
                        5 if !edit => {
                            let (a, b) = size(&mut r);
                            Key::Win(a, b)
                        }
                        6 if focus => {
                            Key::Focus
                        }
                        _ => {
                            let c = *r.pick(&["a", "b", "Z", "0", "9", " ", "é", "日", "😀", "q", "~", "[", "O", "\\", "\"", "@", "#", ";", "A", "ß"]);
                            Key::C(c, c)
                        }
                    });
                }
                Op::Keys { keys, seed: r.next(), ahead: r.chance(1, 3) }
            }
            _ => {
                let mut v = vec![];
                let mut saved = false;
                for _ in 0..1 + r.n(6) {
                    v.push(match r.n(15) {
                        0..=2 => {
                            saved = false;
                            let mut t = word(&mut r);
                            for _ in 0..r.n(4) {
                                t.push('\n');
                                if r.chance(3, 4) {
                                    t.push_str(&word(&mut r));
                                }
                            }
                            D::Write(r.range(1, 70), r.range(1, 30), t)
                        }
                        3 => D::To(r.range(1, 300), r.range(1, 300)),
                        4 | 5 => D::Move(r.n(4), *r.pick(&[1, 1, 2, 3, 10, 0, 15, 1000, -1, -7])),
                        6 => {
                            saved = true;
                            D::Save
                        }
                        7 if saved => D::Restore,
                        8 => D::Show(r.chance(1, 2)),
                        9 => D::Alt(r.chance(1, 2)),
                        10 => D::Clear,
                        11 => D::Title(word(&mut r)),
                        12 => D::Flush,
                        13 => D::Prog(word(&mut r), r.chance(1, 2)),
                        _ => D::Print(word(&mut r), r.n(2) as u8),
                    });
                }
                Op::Draw(v)
            }
        };
        ops.push(op);
    }
    Box::new(ConCase { base: s, ops, tin, has })
}
