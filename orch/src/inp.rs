//! Engine F: what a script reads from the user (C20): `input`, `read-line` and `read-password`, at a
//! simulated terminal or from a pipe or file, with chunked, corrected, early and interrupted typing.
use crate::base::*;
use crate::runner::*;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Input,
    Line,
    Pw,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Enter,
    /// end of input on an empty line
    Eof,
    /// text, then end of input twice
    Part,
    /// ^C in the editor
    Int,
}
#[derive(Clone, Debug)]
struct Reply {
    text: String,
    end: End,
    style: u8,
    /// typed together with (or while the shell is busy before) the reply before it
    ahead: bool,
    seed: u64,
}
#[derive(Clone, Debug)]
enum Op {
    Read { k: K, many: u8, prompt: String, rep: Vec<Reply> },
    Sleep(i64),
    Say,
}
struct InpCase {
    base: Scen,
    ops: Vec<Op>,
    /// 0 terminal, 1 pipe, 2 file, 3 terminal without editing
    mode: u8,
    /// lines of the pipe or file, with their endings
    lines: Vec<Vec<u8>>,
}
struct Typed {
    user: Vec<(String, i64, Act)>,
    /// for each action: the password typed with it, if it must not be echoed
    secret: Vec<bool>,
    text: String,
}
#[derive(Clone, Debug, PartialEq)]
enum Want {
    S(String),
    Err,
}

impl InpCase {
    fn tty(&self, k: K) -> bool {
        k == K::Pw || self.mode == 0 || self.mode == 3
    }
    fn raw(&self, k: K) -> bool {
        k == K::Input && self.mode == 0
    }
    fn expr(&self, o: &Op) -> String {
        match o {
            Op::Read { k, many, prompt, rep } => {
                let one = match k {
                    K::Input => format!("(input {})", dstr(prompt)),
                    K::Line => "(console@keyboard@read-line ())".to_string(),
                    K::Pw => "(string@chars (console@keyboard@read-password ()))".to_string(),
                };
                match many {
                    0 => one,
                    1 => format!("[{}]", vec![one; rep.len()].join(", ")),
                    2 => format!("(fn@map (u -> {}) (0 to {}))", one, rep.len()),
_ => {
                        let n = rep.len();
                        let lets: String = (0..n).map(|i| format!("let v{} = {}; ", i, one)).collect();
                        format!("{{ {}[{}] }}", lets, (0..n).map(|i| format!("v{}", i)).collect::<Vec<_>>().join(", "))
                    }
                }
            }
            Op::Sleep(n) => format!("(time@sleep {})", n),
            Op::Say => "(echo \"some output\")".into(),
        }
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut o = String::from("echo \"@@s\";\n");
        for (k, op) in self.ops.iter().enumerate() {
            if keep[k] {
                let _ = write!(o, "debug [\"@@{}\", (err@try ({}) (e -> [\"ERR\", e@code, e@message]))];\n", k, self.expr(op));
            }
        }
        o
    }
    fn typed(&self, keep: &[bool], hard: bool) -> Typed {
        let mut o = Typed { user: vec![], secret: vec![], text: String::new() };
        // what the shell does just before: 0 nothing typed yet, 1 reads raw, 2 reads cooked, 3 sleeps
        let mut prev = 0;
        for (n, op) in self.ops.iter().enumerate() {
            if !keep[n] {
                continue;
            }
            let (k, rep) = match op {
                Op::Sleep(_) => {
                    prev = 3;
                    continue;
                }
                Op::Read { k, rep, .. } if self.tty(*k) => (*k, rep),
                _ => continue,
            };
            let raw = self.raw(k);
            for x in rep {
                let mut r = Rng::new(x.seed);
                let first = if hard { "w" } else if raw { "r" } else { "c" };
                let ahead = x.ahead && (prev == 3 && x.end != End::Int || prev == 1 && raw || prev == 2 && x.end != End::Int);
                let mut acts: Vec<(i64, Vec<u8>)> = vec![];
                let d = |r: &mut Rng| *r.pick(&[0, 0, 1_000, 300_000, 40_000_000, 3_000_000_000]);
                let b = x.text.as_bytes();
                let end: &[u8] = match x.end {
                    End::Enter if r.chance(1, 8) => b"\n",
                    End::Enter => b"\r",
                    End::Eof => b"\x04",
                    End::Part => b"\x04\x04",
                    End::Int => b"\x03",
                };
                match x.style {
                    1 => {
                        for c in b {
                            acts.push((if r.chance(1, 5) { d(&mut r) } else { 0 }, vec![*c]));
                        }
                        acts.push((d(&mut r), end.to_vec()));
                    }
                    2 => {
                        let mut i = 0;
                        while i < b.len() {
                            let n = 1 + r.n(9.min(b.len() - i));
                            acts.push((d(&mut r), b[i..i + n].to_vec()));
                            i += n;
                        }
                        acts.push((d(&mut r), end.to_vec()));
                    }
                    3 => {
                        // a mistake, erased
                        let chars: Vec<char> = x.text.chars().collect();
                        let p = r.n(chars.len() + 1);
                        let mut v: Vec<u8> = chars[..p].iter().collect::<String>().into_bytes();
                        let n = 1 + r.n(4);
                        v.extend(vec![b'x'; n]);
                        v.extend(vec![0x7f; n]);
                        v.extend(chars[p..].iter().collect::<String>().into_bytes());
                        if r.chance(1, 2) {
                            v.extend(end);
                            acts.push((d(&mut r), v));
                        } else {
                            acts.push((d(&mut r), v));
                            acts.push((d(&mut r), end.to_vec()));
                        }
                    }
                    4 => {
                        // a wrong start, all of it erased
                        acts.push((d(&mut r), b"not this (".to_vec()));
                        let mut v = vec![0x15];
                        v.extend(b);
                        v.extend(end);
                        acts.push((d(&mut r), v));
                    }
                    5 if raw && !ahead && !hard => {
                        let mut v = b"\x1b[200~".to_vec();
                        v.extend(b);
                        v.extend(b"\x1b[201~");
                        acts.push((d(&mut r), v));
                        acts.push((d(&mut r), end.to_vec()));
                    }
                    _ => {
                        let mut v = b.to_vec();
                        v.extend(end);
                        acts.push((d(&mut r), v));
                    }
                }
                if ahead {
                    let all: Vec<u8> = acts.into_iter().flat_map(|x| x.1).collect();
                    if prev == 3 {
                        o.user.push(("z".into(), 1000, Act::Keys(all)));
                        o.secret.push(false);
                    } else if let Some((_, _, Act::Keys(v))) = o.user.last_mut() {
                        v.extend(all);
                    }
                } else {
                    for (i, (dl, v)) in acts.into_iter().enumerate() {
                        let _ = i;
                        o.user.push((first.to_string(), dl, Act::Keys(v)));
                        o.secret.push(k == K::Pw);
                    }
                    prev = if raw { 1 } else { 2 };
                }
                let _ = writeln!(o.text, "  {:?}: {} {:?}{}{}", k, short(b), x.end, if ahead { " (typed early)" } else { "" }, if x.style > 0 { format!(" style {}", x.style) } else { String::new() });
            }
        }
        o
    }
    /// what each kept operation gives
    fn wants(&self, keep: &[bool]) -> Vec<(usize, Vec<Want>)> {
        let mut pos = 0;
        let mut v = vec![];
        for (n, op) in self.ops.iter().enumerate() {
            if !keep[n] {
                continue;
            }
            let Op::Read { k, rep, .. } = op else { continue };
            let mut w = vec![];
            for x in rep {
                w.push(if self.tty(*k) {
                    let t = x.text.clone();
                    match (k, x.end) {
                        (K::Line, End::Enter) => Want::S(t + "\n"),
                        (K::Line, End::Eof) => Want::S(String::new()),
                        (K::Line, End::Part) => Want::S(t),
                        (K::Input, End::Part) => Want::S(t),
                        (_, End::Enter) => Want::S(t),
                        (K::Input, End::Int) => Want::S(String::new()),
                        _ => Want::Err,
                    }
                } else {
                    let l = self.lines.get(pos);
                    pos += 1;
                    self.piped(*k, l.map(|x| &x[..]))
                });
            }
            v.push((n, w));
        }
        v
    }
    fn piped(&self, k: K, l: Option<&[u8]>) -> Want {
        let Some(l) = l else { return if k == K::Line { Want::S(String::new()) } else { Want::Err } };
        let Ok(t) = std::str::from_utf8(l) else { return Want::Err };
        if k == K::Line {
            return Want::S(t.into());
        }
        Want::S(match t.strip_suffix('\n') {
            Some(x) => x.strip_suffix('\r').unwrap_or(x),
            None => t,
        }.into())
    }
    /// hard failures are judged only where what is left over can be told apart
    fn uniform(&self) -> bool {
        let mut ks = vec![];
        for o in &self.ops {
            if let Op::Read { k, rep, .. } = o {
                if self.tty(*k) {
                    ks.push(*k);
                    if rep.iter().any(|x| x.end != End::Enter || x.ahead) {
                        return false;
                    }
                }
            }
        }
        ks.windows(2).all(|w| w[0] == w[1])
    }
}
fn is_hard(m: &Mods) -> bool {
    m.faults.iter().any(|f| matches!(f.kind, FaultKind::Errno(e) if e != EINTR))
}
fn as_text(k: K, v: &Val) -> Option<String> {
    match (k, v) {
        (K::Pw, Val::List(_)) => v.strs().map(|x| x.concat()),
        (K::Pw, _) => None,
        (_, Val::Str(s)) => Some(s.clone()),
        _ => None,
    }
}
/// the rest of the terminal's answer to the editor's question, whose reading failed, then the line
fn after_answer(x: &str, line: &str) -> bool {
    x.strip_suffix(line).map_or(false, |a| a.ends_with('R') && a.chars().all(|c| "[;R0123456789".contains(c)))
}
fn find(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
impl Case for InpCase {
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn scen(&self, keep: &[bool], m: &Mods) -> Scen {
        let mut s = self.base.clone();
        s.script(&self.text(keep));
        let all = self.lines.concat();
        match self.mode {
            1 => s.stdin = format!("source {}", hex(&all)),
            2 => {
                s.file("/home/u/in", &all);
                s.stdin = "file /home/u/in".into();
            }
            _ => s.stdin = "tty".into(),
        }
        if self.mode == 3 {
            s.env.push(("TERM".into(), "dumb".into()));
        }
        s.user = self.typed(keep, is_hard(m)).user;
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = format!("standard input: {}\n{}", ["terminal", "pipe", "file", "terminal without editing"][self.mode as usize], self.text(keep));
        if !self.lines.is_empty() {
            let _ = writeln!(o, "its lines: {:?}", self.lines.iter().map(|x| short(x)).collect::<Vec<_>>());
        }
        o.push_str(&self.typed(keep, false).text);
        o
    }
    fn check(&self, keep: &[bool], m: &Mods, t: &Trace) -> Chk {
        let hard = hard_in(t, 0, t.evs.len());
        let ctl = hard_cls(t, 0, t.evs.len(), C_TTYCTL);
        let fin = t.how == "exit" && !t.code.contains("101");
        if !fin && !(ctl && t.how == "deadlock") {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        let ty = self.typed(keep, is_hard(m));
        // ---- the terminal's mode, and that passwords are typed unseen
        if !ctl {
            let mut mode = String::from("cooked-echo");
            let mut n = 0;
            for e in &t.evs {
                match e {
                    Ev::Mode(x) => mode = x.clone(),
                    Ev::Mark(i) if t.snaps[*i].why == "mark" && mode != "cooked-echo" => return bad("terminal-mode", format!("after an operation the terminal is left {}", mode)),
                    Ev::Input { kind: 1, echo, data, .. } => {
                        if ty.secret.get(n) == Some(&true) && *echo && !hard {
                            return bad("password-echo", format!("the terminal echoes while the password is typed ({})", short(data)));
                        }
                        n += 1;
                    }
                    _ => (),
                }
            }
            if mode != "cooked-echo" {
                return bad("terminal-mode", format!("the terminal is left {}", mode));
            }
        }
        let out = t.out(2, 0);
        let errb = t.out(3, 0);
        for (n, op) in self.ops.iter().enumerate() {
            if let Op::Read { k: K::Pw, rep, .. } = op {
                if keep[n] {
                    for x in rep {
                        if x.text.len() > 3 && (find(&out, x.text.as_bytes()) || find(&errb, x.text.as_bytes())) {
                            return bad("password-shown", format!("the password {:?} was printed", x.text));
                        }
                    }
                }
            }
        }
        // ---- what came back
        let got = marks(&out);
        let wants = self.wants(keep);
        // under hard failures: the lines of each source that may come next, and whether a part of
        // that line may have been lost
        let mut next: [Vec<(usize, bool)>; 2] = [vec![(0, false)], vec![(0, false)]];
        for (n, w) in &wants {
            let Op::Read { k, many, .. } = &self.ops[*n] else { continue };
            let what = self.expr(&self.ops[*n]);
            let Some(v) = got.get(n) else {
                if !fin {
                    return Ok(());
                }
                return bad("value", format!("{} printed no value; standard error: {}", what, short(&errb)));
            };
            let vals: Option<Vec<String>> = if v.err().is_some() {
                None
            } else if *many == 0 {
                match as_text(*k, v) {
                    Some(x) => Some(vec![x]),
                    None => return bad("value", format!("{} gave {:?}", what, v)),
                }
            } else {
                match v {
                    Val::List(l) => match l.iter().map(|x| as_text(*k, x)).collect::<Option<Vec<_>>>() {
                        Some(x) => Some(x),
                        None => return bad("value", format!("{} gave {:?}", what, v)),
                    },
                    _ => return bad("value", format!("{} gave {:?}", what, v)),
                }
            };
            if !hard {
                let want: Option<Vec<String>> = w.iter().map(|x| if let Want::S(s) = x { Some(s.clone()) } else { None }).collect();
                if vals != want {
                    return bad("line", format!("{} gave {:?}, the user entered {:?}", what, vals.map_or_else(|| format!("{:?}", v), |x| format!("{:?}", x)), w));
                }
                continue;
            }
            // the lines of this source, in order
            let src = if self.tty(*k) { 1 } else { 0 };
            let all: Vec<String> = if src == 0 {
                self.lines
                    .iter()
                    .map(|l| match self.piped(*k, Some(l)) {
                        Want::S(s) => s,
                        Want::Err => "\u{0}".into(),
                    })
                    .collect()
            } else {
                wants
                    .iter()
                    .filter(|(i, _)| matches!(&self.ops[*i], Op::Read { k, .. } if self.tty(*k)))
                    .flat_map(|x| x.1.iter())
                    .map(|x| if let Want::S(s) = x { s.clone() } else { "\u{0}".into() })
                    .collect()
            };
            let mut p = std::mem::take(&mut next[src]);
            match vals {
                None => p = p.iter().flat_map(|(i, _)| (*i..=(*i + w.len()).min(all.len())).map(|j| (j, true))).collect(),
                Some(vs) => {
                    for x in vs {
                        let mut q = vec![];
                        for (i, part) in &p {
                            match all.get(*i) {
                                Some(l) if *l == x || *part && (l.ends_with(&x[..]) || self.raw(*k) && after_answer(&x, l)) => q.push((i + 1, false)),
                                _ => (),
                            }
                            if x.is_empty() {
                                q.push((*i, true)); // end of input, or a failure shown as nothing
                            }
                        }
                        if q.is_empty() {
                            let n = p[0].0.min(all.len());
                            return bad("line", format!("{} gave {:?}; the lines still to come were {:?}", what, x, &all[n..]));
                        }
                        p = q;
                    }
                }
            }
            p.sort();
            p.dedup();
            next[src] = p;
        }
        if !hard && !errb.is_empty() {
            return bad("stderr", format!("nothing failed, yet standard error holds {}", short(&errb)));
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let rd: Vec<&Point> = pts.iter().filter(|p| matches!(p.cls, C_READ | C_OPEN | C_TTYCTL)).collect();
        let mut v = vec![];
        while v.len() < budget {
            if self.uniform() && r.chance(1, 3) && !rd.is_empty() {
                let p = if r.chance(1, 3) { &pts[r.n(pts.len())] } else { rd[r.n(rd.len())] };
                let l = legal_errs(p.cls, &p.path);
                if matches!(p.cls, C_READ | C_OPEN | C_TTYCTL) && !l.is_empty() {
                    let mut m = fault(p.seq, FaultKind::Errno(*r.pick(&l)));
                    if r.chance(1, 3) {
                        m.sigs.push((pts[r.n(pts.len())].seq, *r.pick(&[17, 18])));
                    }
                    v.push(m);
                    continue;
                }
            }
            let mut m = if r.chance(2, 3) { soft(r) } else { Mods::default() };
            let quiet = m.faults.is_empty() && !m.knobs.contains_key("frate");
            for _ in 0..r.n(4) {
                match r.n(4) {
                    0 | 1 => {
                        // a window change counts only where no call is interrupted otherwise
                        let s = if quiet { *r.pick(&[17, 28, 28, 18]) } else { *r.pick(&[17, 18]) };
                        m.sigs.push((pts[r.n(pts.len())].seq + r.n(2) as u64, s));
                    }
                    2 => {
                        let s = if quiet { *r.pick(&[17, 28, 18]) } else { *r.pick(&[17, 18]) };
                        m.sigat.push((r.n(4_000_000_000) as i64, s));
                    }
                    _ => {
                        m.knobs.insert("chunk", *r.pick(&[1, 2]));
                    }
                }
            }
            if m == Mods::default() {
                m.knobs.insert("chunk", 1);
            }
            v.push(m);
        }
        v
    }
}

fn line(r: &mut Rng, tabs: bool) -> String {
    let mut s = String::new();
    let n = *r.pick(&[0, 1, 1, 2, 3, 4, 6, 9, 30]);
    for _ in 0..n {
        s.push_str(*r.pick(&[
            "word", "x", " ", "  ", "é", "日本", "😀", "\"", "'", "(", ")", "[1", "{", "}", "\\", "\\n", "let x = 1", "$HOME", "#", ";", "0", "-5.5", "y", "ERR", "@", ">>", "ß", "e\u{301}", "%s", "~", "*", "|", "True",
        ]));
        if s.ends_with('@') {
            s.push('.');
        }
        if tabs && r.chance(1, 12) {
            s.push('\t');
        }
    }
    s
}
pub fn make(_prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.knob("stepns", *r.pick(&[500, 2000, 20000]));
    let mode = *r.pick(&[0, 0, 0, 0, 3, 1, 1, 2]);
    if r.chance(1, 3) {
        s.stdout = "tty".into();
        if r.chance(1, 2) {
            s.stderr = "tty".into();
        }
    }
    let uni = r.chance(1, 3).then(|| *r.pick(&[K::Input, K::Line, K::Pw]));
    let n = 2 + r.n(if thorough { 9 } else { 5 });
    let mut ops = vec![];
    let mut need = 0;
    for _ in 0..n {
        if r.chance(1, 6) {
            ops.push(if r.chance(2, 3) { Op::Sleep(r.range(1, 3000)) } else { Op::Say });
            continue;
        }
        let mut k = *r.pick(&[K::Input, K::Input, K::Line, K::Line, K::Pw]);
        let tty = |k: K| k == K::Pw || mode == 0 || mode == 3;
        if let Some(u) = uni {
            if tty(k) {
                k = if mode == 1 || mode == 2 { K::Pw } else { u };
            }
        }
        let raw = k == K::Input && mode == 0;
        let many = if r.chance(1, 4) { 1 + r.n(3) as u8 } else { 0 };
        let c = if many > 0 { 1 + r.n(4) } else { 1 };
        let mut rep = vec![];
        for _ in 0..c {
            let end = if uni.is_some() || many > 0 { End::Enter } else {
                match r.n(14) {
                    0 => End::Eof,
                    1 if !raw => End::Part,
                    2 if raw => End::Int,
                    _ => End::Enter,
                }
            };
            let mut text = line(&mut r, !raw);
            if k == K::Pw {
                text = format!("{}{}{}", text, "Zq7", r.n(100000));
                if r.chance(1, 8) {
                    text.push(' ');
                }
            }
            if k == K::Pw && r.chance(1, 8) {
                text.clear();
            }
            match end {
                End::Eof => text.clear(),
                End::Part if text.is_empty() => text.push('p'),
                _ => (),
            }
            rep.push(Reply { text, end, style: r.n(7) as u8, ahead: uni.is_none() && r.chance(1, 4), seed: r.next() });
        }
        if !tty(k) {
            need += c;
        }
        ops.push(Op::Read { k, many, prompt: r.pick(&["", "> ", "name: ", "a\nb ", "\x1b[31mred\x1b[0m ", "é? "]).to_string(), rep });
    }
    let mut lines = vec![];
    if mode == 1 || mode == 2 {
        // passed through `input`, a backspace would be an edit
        let more = match r.n(4) {
            0 => -(r.n(3) as i64),
            1 => r.n(3) as i64,
            _ => 0,
        };
        let single = ops.iter().all(|o| !matches!(o, Op::Read { many, k, .. } if *many > 0 && *k != K::Pw));
        let c = (need as i64 + if single { more } else { more.max(0) }).max(0) as usize;
        for _ in 0..c {
            let mut b = line(&mut r, true).into_bytes();
            match r.n(10) {
                0 => b = line(&mut r, true).repeat(1 + r.n(if thorough { 2000 } else { 700 })).into_bytes(),
                1 if single => b.insert(r.n(b.len() + 1), *r.pick(&[0xffu8, 0xc3, 0x80])),
                2 => b.extend(*r.pick(&[&b"\r"[..], b"\r\r", b"\x0c", b"\x0b", b"a\rb", b"\xe2\x80\xa8", b"\xc2\x85"])),
                3 => b.push(0),
                _ => (),
            }
            b.push(b'\n');
            lines.push(b);
        }
        if r.chance(1, 3) {
            if let Some(l) = lines.last_mut() {
                if l.len() > 1 {
                    l.pop();
                }
            }
        }
    }
    Box::new(InpCase { base: s, ops, mode, lines })
}
