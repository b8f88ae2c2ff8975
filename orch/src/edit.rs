//! Engine I: what the line editor shows (C31), as followed by a terminal.
use crate::base::*;
use crate::runner::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Text(String),
    Left,
    Right,
    Home,
    End,
    Bs,
    Del,
    /// to the end, to the beginning
    Kill,
    Clear,
    Up,
    Down,
    /// exchange the two characters at the cursor
    Swap,
    /// the window is redrawn
    Redraw,
    /// a tab character, quoted
    Tab,
}
#[derive(Clone, Debug)]
struct Op {
    /// what is pressed, in groups that arrive together
    keys: Vec<Vec<K>>,
    prompt: String,
    /// how the line ends: entered or given up
    enter: bool,
}
struct EditCase {
    base: Scen,
    ops: Vec<Op>,
    /// at the shell's prompt (nothing is entered) or in `input`
    shell: bool,
    hist: Vec<String>,
    cols: usize,
}
#[derive(Clone, Debug, Default)]
struct Line {
    text: Vec<char>,
    at: usize,
    /// how far back in the history, and what was being typed
    back: usize,
    kept: (Vec<char>, usize),
}
impl Line {
    /// these keys keep to one line of several: not pressed there
    fn stays(&self, k: &K) -> bool {
        self.text.contains(&'\n') && matches!(k, K::Home | K::End | K::Kill | K::Clear | K::Up | K::Down)
    }
    fn press(&mut self, k: &K, hist: &[String]) {
        let end = self.text.len();
        if self.stays(k) {
            return;
        }
        match k {
            K::Text(s) => {
                for c in s.chars() {
                    self.text.insert(self.at, c);
                    self.at += 1;
                }
            }
            K::Tab => {
                self.text.insert(self.at, '\t');
                self.at += 1;
            }
            K::Left => self.at = self.at.saturating_sub(1),
            // at the end it would take the suggestion
            K::Right if self.at < end => self.at += 1,
            K::Right => (),
            K::Home => self.at = 0,
            K::End => self.at = end,
            K::Bs if self.at > 0 => {
                self.at -= 1;
                self.text.remove(self.at);
            }
            K::Del if self.at < end => {
                self.text.remove(self.at);
            }
            K::Kill => self.text.truncate(self.at),
            K::Clear => {
                self.text.drain(..self.at);
                self.at = 0;
            }
            K::Swap if end >= 2 && self.at > 0 => {
                if self.at == end {
                    self.at -= 1;
                }
                self.text.swap(self.at - 1, self.at);
                self.at += 1;
            }
            K::Up if self.back < hist.len() => {
                if self.back == 0 {
                    self.kept = (self.text.clone(), self.at);
                }
                self.back += 1;
                self.text = hist[hist.len() - self.back].chars().collect();
                self.at = self.text.len();
            }
            K::Down if self.back > 0 => {
                self.back -= 1;
                if self.back == 0 {
                    (self.text, self.at) = self.kept.clone();
                } else {
                    self.text = hist[hist.len() - self.back].chars().collect();
                    self.at = self.text.len();
                }
            }
            _ => (),
        }
    }
}
fn bytes(k: &K, l: &Line) -> Vec<u8> {
    match k {
        _ if l.stays(k) => vec![],
        K::Text(s) => s.as_bytes().to_vec(),
        K::Left => b"\x1b[D".to_vec(),
        K::Right if l.at < l.text.len() => b"\x1b[C".to_vec(),
        K::Right => vec![],
        K::Home => vec![1],
        K::End => vec![5],
        K::Bs => vec![0x7f],
        // at the end of an empty line it would end the input
        K::Del => b"\x1b[3~".to_vec(),
        K::Kill => vec![11],
        K::Clear => vec![21],
        K::Up => b"\x1b[A".to_vec(),
        K::Down => b"\x1b[B".to_vec(),
        K::Swap => vec![20],
        K::Redraw => vec![12],
        K::Tab => vec![22, 9],
    }
}
fn wide(c: char) -> usize {
    if "日本語😀".contains(c) { 2 } else { 1 }
}
// ------------------------------------------------------------------ a terminal
#[derive(Default)]
struct Term {
    cols: usize,
    r: usize,
    c: usize,
    /// the cursor is behind the last column
    pend: bool,
    bold: bool,
    cells: BTreeMap<(usize, usize), (char, bool)>,
    odd: Option<String>,
    left: Vec<u8>,
}
impl Term {
    fn put(&mut self, ch: char) {
        let w = wide(ch);
        if self.pend || self.c + w > self.cols {
            self.r += 1;
            self.c = 0;
            self.pend = false;
        }
        self.cells.insert((self.r, self.c), (ch, self.bold));
        if w == 2 {
            self.cells.insert((self.r, self.c + 1), ('\u{1}', self.bold));
        }
        self.c += w;
        if self.c >= self.cols {
            self.c = self.cols - 1;
            self.pend = true;
        }
    }
    fn feed(&mut self, b: &[u8]) {
        self.left.extend_from_slice(b);
        let all = std::mem::take(&mut self.left);
        let good = match std::str::from_utf8(&all) {
            Ok(_) => all.len(),
            Err(e) => e.valid_up_to(),
        };
        let s = String::from_utf8_lossy(&all[..good]).into_owned();
        let mut i = 0;
        let cs: Vec<char> = s.chars().collect();
        let mut rest = all[good..].to_vec();
        while i < cs.len() {
            match cs[i] {
                '\x1b' => {
                    let mut j = i + 1;
                    if j < cs.len() && cs[j] == '[' {
                        j += 1;
                        while j < cs.len() && !cs[j].is_ascii_alphabetic() {
                            j += 1;
                        }
                    }
                    if j >= cs.len() {
                        let mut v: Vec<u8> = cs[i..].iter().collect::<String>().into_bytes();
                        v.append(&mut rest);
                        self.left = v;
                        return;
                    }
                    let arg: String = cs[(i + 2).min(j)..j].iter().collect();
                    let n = arg.parse::<usize>().unwrap_or(1).max(1);
                    match cs[j] {
                        'A' => {
                            self.r = self.r.saturating_sub(n);
                            self.pend = false;
                        }
                        'B' => {
                            self.r += n;
                            self.pend = false;
                        }
                        'C' => {
                            self.c = (self.c + n).min(self.cols - 1);
                            self.pend = false;
                        }
                        'D' => {
                            self.c = self.c.saturating_sub(n);
                            self.pend = false;
                        }
                        'K' => {
                            let (r, c) = (self.r, self.c);
                            self.cells.retain(|k, _| k.0 != r || k.1 < c);
                        }
                        'J' if arg == "2" => self.cells.clear(),
                        'J' => {
                            let at = (self.r, self.c);
                            self.cells.retain(|k, _| *k < at);
                        }
                        'H' => {
                            self.r = 0;
                            self.c = 0;
                            self.pend = false;
                        }
                        'm' => {
                            for x in arg.split(';') {
                                match x {
                                    "" | "0" => self.bold = false,
                                    "1" => self.bold = true,
                                    _ => (),
                                }
                            }
                        }
                        'h' | 'l' | 'n' => (),
                        x => self.odd = Some(format!("ESC [ {} {}", arg, x)),
                    }
                    i = j;
                }
                '\r' => {
                    self.c = 0;
                    self.pend = false;
                }
                '\n' => {
                    self.r += 1;
                    self.c = 0;
                    self.pend = false;
                }
                '\x07' => (),
                '\t' => {
                    self.c = (self.c / 8 * 8 + 8).min(self.cols - 1);
                    self.pend = false;
                }
                c if (c as u32) < 32 => self.odd = Some(format!("the control character {:?}", c)),
                c => self.put(c),
            }
            i += 1;
        }
        self.left = rest;
    }
    fn row(&self, r: usize) -> String {
        let mut v = String::new();
        for c in 0..self.cols {
            match self.cells.get(&(r, c)) {
                Some(('\u{1}', _)) => (),
                Some((x, _)) => v.push(*x),
                None => v.push(' '),
            }
        }
        v.trim_end().to_string()
    }
    fn around(&self, r: usize) -> String {
        (r.saturating_sub(1)..r + 4).map(|r| self.row(r)).collect::<Vec<_>>().join("⏎")
    }
}
/// where each character goes, and where the next one would
fn layout(s: &[char], cols: usize) -> (Vec<(usize, usize)>, (usize, usize)) {
    let (mut r, mut c) = (0, 0);
    let mut v = vec![];
    for x in s {
        if *x == '\n' {
            v.push((r, c));
            r += 1;
            c = 0;
            continue;
        }
        if *x == '\t' {
            v.push((r, c));
            c = c / 8 * 8 + 8;
            continue;
        }
        let w = wide(*x);
        if c + w > cols {
            r += 1;
            c = 0;
        }
        v.push((r, c));
        c += w;
    }
    if c == cols {
        r += 1;
        c = 0;
    }
    (v, (r, c))
}
fn plain(p: &str) -> String {
    let mut o = String::new();
    let mut esc = false;
    for c in p.chars() {
        if c == '\x1b' {
            esc = true;
        } else if esc {
            esc = c != 'm';
        } else {
            o.push(c);
        }
    }
    o
}
impl EditCase {
    /// the line and the prompt at each time the editor waits: before every group of keys, before the line's end, and what is given
    fn states(&self, keep: &[bool]) -> (Vec<(String, i64, Act)>, Vec<(String, Line)>, Vec<(usize, String)>) {
        let mut u = vec![];
        let mut st = vec![];
        let mut given = vec![];
        for k in 0..self.ops.len() {
            if !keep[k] {
                continue;
            }
            let o = &self.ops[k];
            let mut l = Line::default();
            let mut r = Rng::new(hash64(format!("{:?}", o.keys).as_bytes()));
            for g in &o.keys {
                let before = l.clone();
                let mut b = vec![];
                for x in g {
                    b.extend(bytes(x, &l));
                    l.press(x, &self.hist);
                }
                if b.is_empty() {
                    continue;
                }
                st.push((o.prompt.clone(), before));
                u.push(("r".into(), r.range(1000, 5_000_000), Act::Keys(b)));
            }
            // the line ends
            st.push((o.prompt.clone(), l.clone()));
            let text: String = l.text.iter().collect();
            given.push((k, if o.enter && !self.shell { text } else { String::new() }));
            u.push(("r".into(), 1_000_000, Act::Keys(if self.shell || !o.enter { vec![3] } else { vec![13] })));
        }
        if self.shell {
            u.push(("r".into(), 1_000_000, Act::Keys(vec![4])));
            st.push((self.ops[0].prompt.clone(), Line::default()));
        }
        (u, st, given)
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut s = String::new();
        for (k, o) in self.ops.iter().enumerate() {
            if keep[k] {
                let _ = writeln!(s, "debug [\"@@{}\", (input {})];", k, dstr(&o.prompt));
            }
        }
        s
    }
}
impl Case for EditCase {
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        if self.shell {
            s.file("/home/u/.dune-prelude", format!("let prompt = cwd -> {};", dstr(&self.ops[0].prompt)).as_bytes());
        } else {
            s.script(&self.text(keep));
        }
        s.user = self.states(keep).0;
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = format!("{} columns, {}\n", self.cols, if self.shell { format!("at the prompt, history {:?}", self.hist) } else { self.text(keep) });
        for (t, d, a) in self.states(keep).0 {
            if let Act::Keys(b) = a {
                let _ = writeln!(o, "  user ({}, +{} ns) types {:?}", t, d, String::from_utf8_lossy(&b));
            }
        }
        o
    }
    fn check(&self, keep: &[bool], _m: &Mods, t: &Trace) -> Chk {
        let hard = hard_in(t, 0, t.evs.len());
        if hard && t.how != "exit" && t.how != "deadlock" {
            return bad("crash", format!("the shell ended ({} {}): {}", t.how, t.code, short(&t.out(3, 0))));
        }
        if hard {
            return Ok(());
        }
        if t.how != "exit" || t.code.contains("101") {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        let (_, st, given) = self.states(keep);
        let mut s = Term { cols: self.cols, ..Default::default() };
        let mut n = 0;
        for e in &t.evs {
            match e {
                Ev::Out { ofd: 2, data, .. } => s.feed(data),
                Ev::Input { kind: 1, .. } => {
                    let Some((p, l)) = st.get(n) else { return bad("keys", "more keys arrived than were typed".to_string()) };
                    n += 1;
                    let mut all: Vec<char> = plain(p).chars().collect();
                    let np = all.len();
                    all.extend(&l.text);
                    let (at, end) = layout(&all, self.cols);
                    let cur = layout(&all[..np + l.at], self.cols).1;
                    // a wide character at the cursor may begin the next row
                    let want: String = all.iter().collect();
                    let w = |m: String| bad("shown", format!("the line {:?} with the cursor behind {} characters: {}; the screen shows {:?}", want, np + l.at, m, s.around(s.r)));
                    if let Some(x) = &s.odd {
                        return w(format!("the editor wrote {}", x));
                    }
                    if s.pend || s.c != cur.1 || s.r < cur.0 {
                        return w(format!("the cursor is in column {}{}, not {}", s.c, if s.pend { " (about to wrap)" } else { "" }, cur.1));
                    }
                    let top = s.r - cur.0;
                    let mut used = BTreeMap::new();
                    for (i, x) in all.iter().enumerate() {
                        let (r, c) = at[i];
                        if *x == '\n' || *x == '\t' {
                            continue;
                        }
                        let g = s.cells.get(&(top + r, c)).map_or(' ', |x| x.0);
                        if g != *x {
                            return w(format!("character {} should be {:?} and is {:?}", i, x, g));
                        }
                        used.insert((top + r, c), ());
                        if wide(*x) == 2 {
                            used.insert((top + r, c + 1), ());
                        }
                    }
                    // what else is there from the prompt on: a suggestion, in bold, behind the line
                    for (k, (c, bold)) in s.cells.range((top, 0)..) {
                        if used.contains_key(k) || *c == ' ' {
                            continue;
                        }
                        if *k < (top + end.0, end.1) || !bold {
                            return w(format!("there is {:?} in row {}, column {}, which is not in the line", c, k.0 - top, k.1));
                        }
                    }
                }
                _ => (),
            }
        }
        if n < st.len() {
            return bad("keys", format!("{} of {} groups of keys were read", n, st.len()));
        }
        if !self.shell {
            let got = marks(&t.out(2, 0));
            for (k, x) in given {
                if got.get(&k) != Some(&Val::Str(x.clone())) {
                    return bad("line", format!("{:?} was entered and input gave {:?}", x, got.get(&k)));
                }
            }
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let mut v = vec![];
        while v.len() < budget {
            let mut m = if r.chance(3, 4) { soft(r) } else { Mods::default() };
            for _ in 0..r.n(4) {
                m.sigs.push((pts[r.n(pts.len())].seq + r.n(2) as u64, *r.pick(&[17, 18])));
            }
            if m == Mods::default() {
                m.knobs.insert("fshort", 500);
                m.reseed = Some(r.next() >> 1);
            }
            v.push(m);
        }
        v
    }
}
fn piece(r: &mut Rng) -> String {
    let w = *r.pick(&["abc", "x", "let", "echo ", "None", "True", "for ", "exit", "cd ", "日本", "é", "😀", "q", "fn@map ", "l", "ls", "rm -", "h", "cl", "exit 0"]);
    match r.n(14) {
        0 | 1 => format!("\"{}\"", w),
        2 => format!("\"{}\\{}{}\"", w, *r.pick(&["q", "n", "u{41}", "u{zz}", "u{110000}", "\\", "\"", "x4", "u"]), *r.pick(&["", "abc", "\\n", "\\p"])),
        3 => (*r.pick(&["12", "1.5", "1.", "1..2", "12ab", "99999999999999999999", "1e5", "0x1f", "1.e", "007"])).into(),
        4 => (*r.pick(&["->", "~>", "|", ">>", "<<", ">>>", "=", "==", "@", "'", "+", "-", "*", "%", "//", "&&", "||", "!", "?", "^", "$", "~", "`", "&", "\\"])).into(),
        5 => (*r.pick(&["(", ")", "{", "}", "[", "]", ";", ",", ":", "."])).into(),
        6 => format!("#{}", w),
        7 => "\"".into(),
        8 | 9 => " ".into(),
        _ => w.into(),
    }
}
fn text(r: &mut Rng, most: usize) -> String {
    (0..1 + r.n(most)).map(|_| piece(r)).collect()
}
pub fn make(_prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.knob("stepns", *r.pick(&[500, 2000, 20000]));
    s.stdin = "tty".into();
    s.stdout = "tty".into();
    let cols = match r.n(6) {
        0 => 6 + r.n(12),
        1 | 2 => 10 + r.n(40),
        3 => 200,
        _ => 80,
    };
    s.winsize = Some((1000, cols as u16));
    let shell = r.chance(1, 2);
    let tabs = cols >= 80 && r.chance(1, 3);
    let mut hist = vec![];
    if shell && r.chance(2, 3) {
        for _ in 0..1 + r.n(5) {
            let mut t = text(&mut r, 8);
            if r.chance(1, 4) {
                t = t + "\n" + &text(&mut r, 4);
            }
            if tabs {
                t = t.replace(' ', *r.pick(&["\t", " ", "\t\t", "\t "]));
            }
            let t = t.trim().to_string();
            if !t.is_empty() && hist.last() != Some(&t) {
                hist.push(t);
            }
        }
        let mut h = String::from("#V2\n");
        for x in &hist {
            h.push_str(&x.replace('\\', "\\\\").replace('\n', "\\n"));
            h.push('\n');
        }
        s.file("/home/u/.dune-history", h.as_bytes());
    }
    let mut prompt = String::new();
    let prompts = |r: &mut Rng, prompt: &mut String| {
        *prompt = match r.n(7) {
            0 => String::new(),
            1 => format!("\x1b[1;32m{}\x1b[m\x1b[0m$ ", text(r, 1).replace('\\', "")),
            2 => format!("日本 {}> ", "x".repeat(r.n(30))),
            3 => "\x1b[94mone\x1b[0m\ntwo> ".into(),
            4 => format!("{}\x1b[38;5;9m> \x1b[m", "p".repeat(cols.saturating_sub(2 + r.n(3)))),
            _ => "> ".into(),
        };
    };
    prompts(&mut r, &mut prompt);
    let n = 1 + r.n(if thorough { 6 } else { 4 });
    let mut ops = vec![];
    for _ in 0..n {
        if !shell {
            prompts(&mut r, &mut prompt);
        }
        let mut keys = vec![];
        for _ in 0..1 + r.n(8) {
            let mut g = vec![];
            let k = if r.chance(1, 2) { 1 } else { 1 + r.n(4) };
            for _ in 0..k {
                g.push(match r.n(20) {
                    0 => K::Left,
                    1 => K::Right,
                    2 => K::Home,
                    3 => K::End,
                    4 => K::Bs,
                    5 => K::Del,
                    6 if r.chance(1, 2) => K::Kill,
                    7 if r.chance(1, 2) => K::Clear,
                    8 | 9 if !hist.is_empty() => K::Up,
                    10 if !hist.is_empty() => K::Down,
                    11 => K::Swap,
                    12 if r.chance(1, 2) => K::Redraw,
                    13 if tabs => K::Tab,
                    13 => K::Left,
                    14 => K::Text("x".into()),
                    _ => K::Text(text(&mut r, 4)),
                });
            }
            keys.push(g);
        }
        ops.push(Op { keys, prompt: prompt.clone(), enter: r.chance(5, 6) });
    }
    let c = EditCase { base: s, ops, shell, hist, cols };
    // how a tab at the right edge looks is up to the terminal
    if tabs {
        let (_, st, _) = c.states(&vec![true; n]);
        let far = |p: &str, l: &Line| {
            let all: Vec<char> = plain(p).chars().chain(l.text.iter().copied()).collect();
            l.text.contains(&'\t') && layout(&all, usize::MAX).0.iter().any(|x| x.1 + 10 > cols)
        };
        if st.iter().any(|(p, l)| far(p, l)) {
            return make(_prop, seed.wrapping_add(0x5bd1e995), thorough);
        }
    }
    Box::new(c)
}
