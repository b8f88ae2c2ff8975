//! Engine B: generated scripts whose effects (printed text, files, programs, exit status) are
//! compared with those a small interpreter gives (C13, C14, C15, C23, C24, C25).
use crate::base::*;
use crate::runner::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum E {
    Lit(i64),
    Var(u32),
    /// appends <tok> to the log, then its value
    Eff(u32, Box<E>),
    Bin(char, Box<E>, Box<E>),
    Call(u32, Vec<E>),
    Try(Box<E>, Box<H>),
    If(Box<Cd>, Box<E>, Box<E>),
    Blk(Vec<S>, Box<E>),
    /// fn@reduce, list@foldl or list@foldr with a two-parameter function (params a, b)
    Fold(u8, u32, u32, Box<E>, i64, Vec<i64>),
    Cond3(Box<E>, Box<E>, Box<E>),
    /// an operator as a function of several operands
    Nary(char, Vec<E>),
    /// list literals: their length, an element, a sum of two
    Lst(u8, usize, Vec<E>),
    Neg(Box<E>),
    /// a call with the arguments given in other ways
    CallAs(u8, u32, Vec<E>),
    /// a function or macro written where it is called
    Imm(bool, u32, Vec<S>, Box<E>, Box<E>),
    Incl(u32),
    Impt(u32),
    Eval(u32),
    Fail(Fl),
    Exit(Box<E>),
}
#[derive(Clone, Debug)]
pub enum Cd {
    Cmp(&'static str, E, E),
    And(Box<Cd>, Box<Cd>),
    Or(Box<Cd>, Box<Cd>),
    Not(Box<Cd>),
    /// a value which counts as true or does not
    Is(u8),
}
#[derive(Clone, Debug)]
pub struct H {
    pub var: u32,
    pub tok: u32,
    pub body: Vec<S>,
    pub ret: E,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fl {
    Apply,
    Failed,
    NonList,
    Deep,
    Denied,
    NotFound,
    Read,
    Int,
    Add,
    Div,
    Pipe,
    NoDir,
    DeniedAbs,
    DeniedDir,
    DeniedRel,
    NotFoundAbs,
    NotDir,
    Mkdir,
    FunNonList,
}
pub const FLS: &[Fl] = &[Fl::DeniedAbs, Fl::DeniedDir, Fl::DeniedRel, Fl::NotFoundAbs, Fl::NotDir, Fl::Mkdir, Fl::FunNonList, Fl::Apply, Fl::Failed, Fl::NonList, Fl::Deep, Fl::Denied, Fl::NotFound, Fl::Read, Fl::Int, Fl::Add, Fl::Div, Fl::Pipe, Fl::NoDir];
impl Fl {
    fn text(self) -> &'static str {
        match self {
            Fl::Apply => "(5 1)",
            Fl::Failed => "(garbage 1)",
            Fl::NonList => "(for zz in 5 { 1 })",
            Fl::Deep => "(deep 1)",
            Fl::Denied => "(noexec 1)",
            Fl::NotFound => "(nosuchprogram 1)",
            Fl::Read => "(fs@read \"/no/such/file\")",
            Fl::Int => "(int \"x\")",
            Fl::Add => "(1 + \"a\")",
            Fl::Div => "(1 // 0)",
            Fl::Pipe => "(nosuchprogram 1 | (zq -> zq))",
            Fl::NoDir => "(cd \"/no/such\")",
            Fl::DeniedAbs => "(\"/bin/noexec\" \"a\" 2)",
            Fl::DeniedDir => "(\"/bin\" 1)",
            Fl::DeniedRel => "(\"../../bin/noexec\" 1)",
            Fl::NotFoundAbs => "(\"/bin/nosuchprogram\" 1)",
            Fl::NotDir => "(\"/bin/garbage/x\" 1)",
            Fl::Mkdir => "(fs@mkdir \"/bin/garbage/x\")",
            Fl::FunNonList => "((zl -> (for zz in zl { 1 })) \"abc\")",
        }
    }
    fn code(self) -> i64 {
        match self {
            Fl::Apply => 1,
            Fl::Failed => 3,
            Fl::NotDir => 3,
            Fl::NonList | Fl::FunNonList => 4,
            Fl::Deep => 5,
            Fl::Denied | Fl::DeniedAbs | Fl::DeniedDir | Fl::DeniedRel => 6,
            Fl::NotFound | Fl::NotFoundAbs => 7,
            _ => 9,
        }
    }
    /// text of the report that says what went wrong
    fn says(self) -> &'static str {
        match self {
            Fl::Failed => "garbage",
            Fl::NotFound | Fl::NotFoundAbs => "nosuchprogram",
            Fl::NotDir | Fl::Mkdir => "garbage/x",
            Fl::Pipe => "nosuchprogram",
            Fl::NoDir => "/no/such",
            _ => "",
        }
    }
}
#[derive(Clone, Debug)]
pub enum A {
    Tok(u32),
    Val(E),
}
#[derive(Clone, Debug)]
pub enum St {
    /// program stage: token, and whether it passes its input on (else it prints its own text)
    Prog(u32, bool),
    /// function stage: appends token, prints its input, returns it
    Fun(u32, u32),
    /// function stage that fails or ends the shell
    FailFun(u32, Fl),
    ExitFun(u32, i64),
}
#[derive(Clone, Debug)]
pub enum S {
    Print(u8, Vec<A>),
    Big(u8, u32, usize),
    App(u32, u8),
    WriteF(u8, u32),
    Run(u32, u8),
    Pipe(Option<u32>, Vec<St>),
    Let(u32, E),
    For(u32, Vec<E>, Vec<S>),
    ForTo(u32, E, E, Vec<S>),
    If(Cd, Vec<S>, Vec<S>),
    Block(Vec<S>),
    Fn(u32, Vec<u32>, Vec<S>, E),
    Mac(u32, Vec<u32>, Vec<S>, E),
    Ex(E),
    /// fn@map / fn@filter over a list, results printed one by one
    MapF(u8, u32, u32, E, Vec<i64>),
    TryS(Vec<S>, E, H),
    /// let q = '{...}
    Quote(u32, Vec<S>, E),
    Exec(u32),
    Sleep(u32),
    LogSet(E),
    LogDisable,
    LogMsg(u8, u32, u8),
    LogQ(E),
    LogGet,
    /// changes directory (the other directory holds links to all files)
    Cd(u8),
    Where(u8),
}
const TRUTH: [(&str, bool); 14] = [
    ("\"\"", false), ("\"0\"", true), ("0", false), ("0.0", false), ("0.5", true), ("[]", false), ("[0]", true), ("None", false),
    ("True", true), ("False", false), ("{k= 0}", true), ("(dict@remove {k= 0} \"k\")", false), ("(to 3 3)", false), ("(list@rev [1])", true),
];
const DIRS: [&str; 2] = ["/home/u", "/home/u/sub"];
/// the shell's directory, kept like a variable
const CWDK: u32 = u32::MAX;
pub const LEVELS: [&str; 6] = ["none", "error", "warn", "info", "debug", "trace"];

// ------------------------------------------------------------------ text
impl E {
    fn t(&self) -> String {
        match self {
            E::Lit(n) if *n < 0 => format!("(0 - {})", n.unsigned_abs()),
            E::Lit(n) => n.to_string(),
            E::Var(v) => format!("v{}", v),
            E::Eff(t, e) => format!("(eff \"<{}>\" {})", t, e.t()),
            E::Bin(o, a, b) => format!("({} {} {})", a.t(), o, b.t()),
            E::Call(f, a) => format!("(f{} {})", f, a.iter().map(|x| x.t()).collect::<Vec<_>>().join(" ")),
            E::Try(e, h) => format!("(err@try {} {})", paren(e.t()), h.t()),
            E::If(c, a, b) => format!("(if {} {{ {} }} else {{ {} }})", c.t(), a.t(), b.t()),
            E::Blk(s, e) => format!("({{ {} {} }})", block(s), e.t()),
            E::Fold(k, a, b, e, z, l) => {
                let f = ["fn@reduce", "list@foldl", "list@foldr"][*k as usize];
                format!("({} (v{} -> v{} -> {}) {} [{}])", f, a, b, e.t(), z, l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
            }
            E::Cond3(c, a, b) => format!("(fn@? {} {} {})", c.t(), a.t(), b.t()),
            E::Nary(o, a) => format!("(ops@{} {})", o, a.iter().map(|x| x.t()).collect::<Vec<_>>().join(" ")),
            E::Lst(k, i, a) => {
                let l = |a: &[E]| format!("[{}]", a.iter().map(|x| x.t()).collect::<Vec<_>>().join(", "));
                match k % 5 {
                    0 => format!("(len {})", l(a)),
                    1 => format!("(list@nth {} {})", i, l(a)),
                    2 => format!("({}@{})", l(a), i),
                    3 => format!("(len ({} + {}))", l(&a[..*i]), l(&a[*i..])),
                    _ => format!("({{k{}= {}}}@k{})", i, a[0].t(), i),
                }
            }
            E::Neg(e) => format!("(-{})", paren(e.t())),
            E::CallAs(k, f, a) => {
                let t: Vec<_> = a.iter().map(|x| x.t()).collect();
                match k % 3 {
                    0 => t.iter().fold(format!("f{}", f), |x, y| format!("({} {})", x, y)),
                    1 if t.len() > 1 => format!("((f{} {}) {})", f, t[..t.len() - 1].join(" "), t[t.len() - 1]),
                    _ => format!("(fn@apply f{} [{}])", f, t.join(", ")),
                }
            }
            E::Imm(m, p, b, r, a) => format!("((v{} {} {{ {} {} }}) {})", p, if *m { "~>" } else { "->" }, block(b), r.t(), a.t()),
            E::Incl(k) => format!("(sys@include \"inc{}.ds\")", k),
            E::Impt(k) => format!("(sys@import \"inc{}.ds\")", k),
            E::Eval(q) => format!("(eval v{})", q),
            E::Fail(f) => f.text().into(),
            E::Exit(e) => format!("({} {})", if matches!(**e, E::Lit(3 | 200)) { "quit" } else { "exit" }, e.t()),
        }
    }
}
fn paren(s: String) -> String {
    if s.starts_with('(') { s } else { format!("({})", s) }
}
impl Cd {
    fn t(&self) -> String {
        match self {
            Cd::Cmp(o, a, b) => format!("({} {} {})", a.t(), o, b.t()),
            Cd::And(a, b) => format!("({} && {})", a.t(), b.t()),
            Cd::Or(a, b) => format!("({} || {})", a.t(), b.t()),
            Cd::Not(a) => format!("(!{})", paren(a.t())),
            Cd::Is(k) => TRUTH[*k as usize % TRUTH.len()].0.to_string(),
        }
    }
}
impl H {
    fn t(&self) -> String {
        format!("(v{} -> {{ echo \"H{}\" (v{}@code); {} {} }})", self.var, self.tok, self.var, block(&self.body), self.ret.t())
    }
}
fn block(s: &[S]) -> String {
    s.iter().map(|x| x.t()).collect::<Vec<_>>().join(" ")
}
fn blk0(s: &[S]) -> String {
    if s.is_empty() { "{ 0 }".into() } else { format!("{{ {} }}", block(s)) }
}
impl St {
    fn t(&self) -> String {
        match self {
            St::Prog(t, cat) => format!("{}{} {}", if *cat { "c" } else { "p" }, t, t),
            St::Fun(v, t) => format!("(v{} -> {{ \"<{}>\" >>> \"log\"; print v{}; v{} }})", v, t, v, v),
            St::FailFun(v, f) => format!("(v{} -> {})", v, f.text()),
            St::ExitFun(v, n) => format!("(v{} -> (exit {}))", v, n),
        }
    }
}
impl S {
    fn t(&self) -> String {
        match self {
            S::Print(k, a) => {
                let f = ["echo", "println", "print", "debug", "log@echo", "report"][*k as usize];
                format!("{} {};", f, a.iter().map(|x| match x { A::Tok(t) => format!("\"t{}\"", t), A::Val(e) => e.t() }).collect::<Vec<_>>().join(" "))
            }
            S::Big(k, t, n) => format!("{} (\"{}.\" * {});", ["echo", "print"][*k as usize % 2], t, n),
            S::App(t, f) => match f % 3 {
                0 => format!("\"<{}>\" >>> \"log\";", t),
                1 => format!("fs@append \"log\" \"<{}>\";", t),
                _ => format!("fs@append \"/home/u/log\" (\"<{}\" + \">\");", t),
            },
            S::WriteF(k, t) => format!("fs@write \"f{}\" \"<{}>\";", k, t),
            S::Run(t, f) => match f % 3 {
                0 => format!("p{} {};", t, t),
                1 => format!("\"p{}\" \"x\" [1, 2];", t),
                _ => format!("(p{} CWD);", t),
            },
            S::Pipe(first, st) => {
                let mut v = vec![];
                if let Some(t) = first {
                    v.push(format!("\"i{}.\"", t));
                }
                v.extend(st.iter().map(|x| x.t()));
                format!("{};", v.join(" | "))
            }
            S::Let(v, e) => format!("let v{} = {};", v, e.t()),
            S::For(v, l, b) => format!("for v{} in [{}] {};", v, l.iter().map(|x| x.t()).collect::<Vec<_>>().join(", "), blk0(b)),
            S::ForTo(v, a, z, b) => format!("for v{} in {} to {} {};", v, a.t(), z.t(), blk0(b)),
            S::If(c, a, b) => {
                if b.is_empty() {
                    format!("if {} {};", c.t(), blk0(a))
                } else {
                    format!("if {} {} else {};", c.t(), blk0(a), blk0(b))
                }
            }
            S::Block(b) => format!("{};", blk0(b)),
            S::Fn(f, p, b, r) => format!("let f{} = {}{{ {} {} }};", f, p.iter().map(|x| format!("v{} -> ", x)).collect::<String>(), block(b), r.t()),
            S::Mac(f, p, b, r) => format!("let f{} = {}{{ {} {} }};", f, p.iter().map(|x| format!("v{} ~> ", x)).collect::<String>(), block(b), r.t()),
            S::Ex(e) => format!("{};", e.t()),
            S::MapF(k, a, r, e, l) => {
                let l = l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
                match k % 2 {
                    0 => format!("for v{} in (fn@map (v{} -> {}) [{}]) {{ echo v{}; }};", r, a, e.t(), l, r),
                    _ => format!("for v{} in (fn@filter (v{} -> ({} > 1)) [{}]) {{ echo v{}; }};", r, a, e.t(), l, r),
                }
            }
            S::TryS(b, e, h) => format!("err@try ({{ {} {} }}) {};", block(b), e.t(), h.t()),
            S::Quote(q, b, e) => format!("let v{} = '{{ {} {} }};", q, block(b), e.t()),
            S::Exec(q) => format!("exec v{};", q),
            S::Sleep(n) => format!("time@sleep {};", n),
            S::LogSet(e) => format!("log@set-level {};", e.t()),
            S::LogDisable => "fn@apply log@disable [];".into(),
            S::LogMsg(l, t, f) => {
                let n = LEVELS[*l as usize];
                match f % 7 {
                    0 => format!("log@{} \"m{}\";", n, t),
                    1 => format!("log@{} \"m{}\" {};", n, t, t),
                    2 => format!("log@{} \"m{}a\\nm{}b\\n\";", n, t, t),
                    3 => format!("log@{} \"m{}a\\nm{}b\\nm{}c\\n\";", n, t, t, t),
                    5 => format!("log@{} \"m{}a\\n\\nm{}b\\n\";", n, t, t),
                    6 => format!("log@{} \"m{}a\\n\\n\";", n, t),
                    _ => format!("log@{} (str {});", n, t),
                }
            }
            S::LogQ(e) => format!("echo (log@enabled? {});", e.t()),
            S::LogGet => "echo (fn@apply log@get-level []);".into(),
            S::Cd(k) => format!("{} \"{}\";", ["cd", "sys@cd"][*k as usize / 2 % 2], DIRS[*k as usize % 2]),
            S::Where(k) => ["echo CWD;", "echo (sys@cwd 1);", "debug CWD;"][*k as usize % 3].into(),
        }
    }
}

// ------------------------------------------------------------------ interpreter
#[derive(Clone, Debug)]
enum Stop {
    Err(i64, String),
    Exit(i64),
    /// not a program this interpreter understands (after minimisation dropped a definition)
    Bad,
}
type R<T> = Result<T, Stop>;
type Vars = BTreeMap<u32, i64>;
#[derive(Clone, Debug, Default)]
struct Cand {
    /// which operation fails, how much of its text is written first, the code it reports
    at: usize,
    part: usize,
    code: i64,
}
#[derive(Default)]
pub struct M<'a> {
    out: Vec<u8>,
    log: Vec<u8>,
    files: BTreeMap<u8, Vec<u8>>,
    fns: BTreeMap<u32, (&'a [u32], &'a [S], &'a E, Vars, bool)>,
    quotes: BTreeMap<u32, (&'a [S], &'a E)>,
    incs: Option<&'a [Inc]>,
    level: i64,
    nprim: usize,
    steps: usize,
    cand: Option<Cand>,
    hit: bool,
    handled: usize,
}
#[derive(Clone, Debug)]
pub struct Inc {
    pub body: Vec<S>,
    pub ret: E,
    /// 0 well-formed, then ways to be malformed or unreadable
    pub bad: u8,
}
impl<'a> M<'a> {
    fn prim(&mut self) -> R<Option<usize>> {
        let i = self.nprim;
        self.nprim += 1;
        if i > 250 {
            return Err(Stop::Bad);
        }
        match &self.cand {
            Some(c) if c.at == i => {
                self.hit = true;
                Ok(Some(c.part))
            }
            _ => Ok(None),
        }
    }
    fn failed(&self) -> Stop {
        Stop::Err(self.cand.as_ref().unwrap().code, String::new())
    }
    fn fail(&mut self, f: Fl) -> Stop {
        // an operation that fails anyway may fail for another reason
        if matches!(f, Fl::Failed | Fl::Denied | Fl::NotFound | Fl::Pipe | Fl::Read | Fl::NoDir | Fl::DeniedAbs | Fl::DeniedDir | Fl::DeniedRel | Fl::NotFoundAbs | Fl::NotDir | Fl::Mkdir) {
            if let Ok(Some(_)) = self.prim() {
                return self.failed();
            }
        }
        Stop::Err(f.code(), f.says().into())
    }
    fn app(&mut self, text: &str) -> R<()> {
        match self.prim()? {
            Some(p) => {
                self.log.extend_from_slice(&text.as_bytes()[..p.min(text.len())]);
                Err(self.failed())
            }
            None => {
                self.log.extend_from_slice(text.as_bytes());
                Ok(())
            }
        }
    }
    fn e(&mut self, e: &'a E, v: &mut Vars) -> R<i64> {
        self.steps += 1;
        if self.steps > 6000 {
            return Err(Stop::Bad);
        }
        Ok(match e {
            E::Lit(n) => *n,
            E::Var(k) => *v.get(k).ok_or(Stop::Bad)?,
            E::Eff(t, e) => {
                // eff is called with its token and value: the value is evaluated before the body runs
                let x = self.e(e, v)?;
                self.app(&format!("<{}>", t))?;
                x
            }
            E::Bin(o, a, b) => {
                let x = self.e(a, v)?;
                let y = self.e(b, v)?;
                let r = match o {
                    '+' => x.checked_add(y),
                    '-' => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match r {
                    Some(r) if r.abs() < 1 << 40 => r,
                    _ => return Err(Stop::Bad),
                }
            }
            E::Call(f, a) => {
                let (ps, body, ret, cap, mac) = self.fns.get(f).cloned().ok_or(Stop::Bad)?;
                if mac {
                    for (p, x) in ps.iter().zip(a) {
                        let y = self.e(x, v)?;
                        v.insert(*p, y);
                    }
                    self.b(body, v)?;
                    return self.e(ret, v);
                }
                let mut n = cap;
                for (p, x) in ps.iter().zip(a) {
                    let y = self.e(x, v)?;
                    n.insert(*p, y);
                }
                n.insert(CWDK, v[&CWDK]);
                self.b(body, &mut n)?;
                self.e(ret, &mut n)?
            }
            E::Try(e, h) => match self.e(e, v) {
                Err(Stop::Err(c, _)) => self.handle(h, c, v)?,
                x => x?,
            },
            E::If(c, a, b) => {
                if self.c(c, v)? { self.e(a, v)? } else { self.e(b, v)? }
            }
            E::Blk(s, e) => {
                self.b(s, v)?;
                self.e(e, v)?
            }
            E::Fold(k, a, b, e, z, l) => {
                let mut acc = *z;
                let cap = v.clone();
                let items: Vec<i64> = if *k == 2 { l.iter().rev().cloned().collect() } else { l.clone() };
                for x in items {
                    let mut n = cap.clone();
                    let (p, q) = if *k == 2 { (x, acc) } else { (acc, x) };
                    n.insert(*a, p);
                    n.insert(*b, q);
                    acc = self.e(e, &mut n)?;
                }
                acc
            }
            E::Cond3(c, a, b) => {
                if self.e(c, v)? != 0 { self.e(a, v)? } else { self.e(b, v)? }
            }
            E::Nary(o, a) => {
                let mut acc = self.e(&a[0], v)?;
                for x in &a[1..] {
                    let y = self.e(x, v)?;
                    acc = match o {
                        '+' => acc + y,
                        _ => acc - y,
                    };
                    if acc.abs() >= 1 << 40 {
                        return Err(Stop::Bad);
                    }
                }
                acc
            }
            E::Lst(k, i, a) => {
                let mut l = vec![];
                for x in if k % 5 == 4 { &a[..1] } else { &a[..] } {
                    l.push(self.e(x, v)?);
                }
                match k % 5 {
                    0 | 3 => l.len() as i64,
                    4 => l[0],
                    _ => l[*i],
                }
            }
            E::Neg(e) => -self.e(e, v)?,
            E::CallAs(_, f, a) => {
                let (ps, body, ret, mut n, _) = self.fns.get(f).cloned().ok_or(Stop::Bad)?;
                for (p, x) in ps.iter().zip(a) {
                    let y = self.e(x, v)?;
                    n.insert(*p, y);
                }
                n.insert(CWDK, v[&CWDK]);
                self.b(body, &mut n)?;
                self.e(ret, &mut n)?
            }
            E::Imm(m, p, b, r, a) => {
                let mut cap = v.clone();
                let x = self.e(a, v)?;
                cap.insert(CWDK, v[&CWDK]);
                let n = if *m { v } else { &mut cap };
                n.insert(*p, x);
                self.b(b, n)?;
                self.e(r, n)?
            }
            E::Incl(k) => self.inc(*k, v)?,
            E::Impt(k) => {
                let mut n = v.clone();
                self.inc(*k, &mut n)?
            }
            E::Eval(q) => {
                let (b, r) = *self.quotes.get(q).ok_or(Stop::Bad)?;
                let mut n = v.clone();
                self.b(b, &mut n)?;
                self.e(r, &mut n)?
            }
            E::Fail(f) => return Err(self.fail(*f)),
            E::Exit(e) => {
                let n = self.e(e, v)?;
                return Err(Stop::Exit(n));
            }
        })
    }
    fn inc(&mut self, k: u32, v: &mut Vars) -> R<i64> {
        let i = &self.incs.ok_or(Stop::Bad)?[k as usize];
        if self.prim()?.is_some() {
            return Err(self.failed());
        }
        if i.bad != 0 {
            return Err(Stop::Err(9, String::new()));
        }
        self.b(&i.body, v)?;
        self.e(&i.ret, v)
    }
    fn handle(&mut self, h: &'a H, code: i64, v: &mut Vars) -> R<i64> {
        self.handled += 1;
        let mut n = v.clone();
        let _ = writeln!(W(&mut self.out), "H{} {}", h.tok, code);
        self.b(&h.body, &mut n)?;
        self.e(&h.ret, &mut n)
    }
    fn c(&mut self, c: &'a Cd, v: &mut Vars) -> R<bool> {
        Ok(match c {
            Cd::Cmp(o, a, b) => {
                let x = self.e(a, v)?;
                let y = self.e(b, v)?;
                match *o {
                    "<" => x < y,
                    ">" => x > y,
                    "<=" => x <= y,
                    ">=" => x >= y,
                    "==" => x == y,
                    _ => x != y,
                }
            }
            Cd::And(a, b) => {
                let x = self.c(a, v)?;
                let y = self.c(b, v)?;
                x && y
            }
            Cd::Or(a, b) => {
                let x = self.c(a, v)?;
                let y = self.c(b, v)?;
                x || y
            }
            Cd::Not(a) => !self.c(a, v)?,
            Cd::Is(k) => TRUTH[*k as usize % TRUTH.len()].1,
        })
    }
    fn b(&mut self, s: &'a [S], v: &mut Vars) -> R<()> {
        for x in s {
            self.s(x, v)?;
        }
        Ok(())
    }
    fn s(&mut self, s: &'a S, v: &mut Vars) -> R<()> {
        self.steps += 1;
        if self.steps > 6000 || self.out.len() > 4 << 20 {
            return Err(Stop::Bad);
        }
        match s {
            S::Print(k, a) => {
                for (i, x) in a.iter().enumerate() {
                    let t = match x {
                        A::Tok(t) => if *k == 3 { format!("\"t{}\"", t) } else { format!("t{}", t) },
                        A::Val(e) => self.e(e, v)?.to_string(),
                    };
                    let last = i + 1 == a.len();
                    self.out.extend_from_slice(t.as_bytes());
                    if !last {
                        self.out.push(b' ');
                    } else if *k != 2 {
                        self.out.push(b'\n');
                    }
                }
            }
            S::Big(k, t, n) => {
                self.out.extend_from_slice(format!("{}.", t).repeat(*n).as_bytes());
                if k % 2 == 0 {
                    self.out.push(b'\n');
                }
            }
            S::App(t, _) => self.app(&format!("<{}>", t))?,
            S::WriteF(k, t) => {
                let text = format!("<{}>", t).into_bytes();
                match self.prim()? {
                    // 0: not opened; 1..: truncated and partly written
                    Some(0) => return Err(self.failed()),
                    Some(p) => {
                        self.files.insert(*k, text[..(p - 1).min(text.len())].to_vec());
                        return Err(self.failed());
                    }
                    None => {
                        self.files.insert(*k, text);
                    }
                }
            }
            S::Run(t, _) => {
                if self.prim()?.is_some() {
                    return Err(self.failed());
                }
                self.prog(*t);
            }
            S::Pipe(first, st) => {
                // printed text comes before what a stage prints; the input passes from stage to stage
                let mut cur = first.map_or(vec![], |t| format!("i{}.", t).into_bytes());
                for (i, x) in st.iter().enumerate() {
                    let last = i + 1 == st.len();
                    match x {
                        St::Prog(t, cat) => {
                            if self.prim()?.is_some() {
                                return Err(self.failed());
                            }
                            self.log.extend_from_slice(format!("<{}>", t).as_bytes());
                            let o = if *cat { cur.clone() } else { format!("P{}\n", t).into_bytes() };
                            cur = o;
                            if last {
                                self.out.extend_from_slice(&cur);
                            }
                        }
                        St::Fun(_, t) => {
                            self.app(&format!("<{}>", t))?;
                            self.out.extend_from_slice(&cur);
                        }
                        St::FailFun(_, f) => return Err(self.fail(*f)),
                        St::ExitFun(_, n) => return Err(Stop::Exit(*n)),
                    }
                }
            }
            S::Let(k, e) => {
                let x = self.e(e, v)?;
                v.insert(*k, x);
            }
            S::For(k, l, b) => {
                let mut items = vec![];
                for e in l {
                    items.push(self.e(e, v)?);
                }
                for x in items {
                    v.insert(*k, x);
                    self.b(b, v)?;
                }
            }
            S::ForTo(k, a, z, b) => {
                let x = self.e(a, v)?;
                let y = self.e(z, v)?;
                if y - x > 200 {
                    return Err(Stop::Bad);
                }
                for i in x..y {
                    v.insert(*k, i);
                    self.b(b, v)?;
                }
            }
            S::If(c, a, b) => {
                if self.c(c, v)? { self.b(a, v)? } else { self.b(b, v)? }
            }
            S::Block(b) => self.b(b, v)?,
            S::Fn(f, p, b, r) => {
                self.fns.insert(*f, (p, b, r, v.clone(), false));
            }
            S::Mac(f, p, b, r) => {
                self.fns.insert(*f, (p, b, r, Vars::new(), true));
            }
            S::Ex(e) => {
                self.e(e, v)?;
            }
            S::MapF(k, a, r, e, l) => {
                let mut res = vec![];
                let cap = v.clone();
                for x in l {
                    let mut n = cap.clone();
                    n.insert(*a, *x);
                    let y = self.e(e, &mut n)?;
                    if k % 2 == 0 {
                        res.push(y);
                    } else if y > 1 {
                        res.push(*x);
                    }
                }
                for y in res {
                    v.insert(*r, y);
                    let _ = writeln!(W(&mut self.out), "{}", y);
                }
            }
            S::TryS(b, e, h) => {
                let r = match self.b(b, v) {
                    Ok(()) => self.e(e, v).map(|_| ()),
                    x => x,
                };
                match r {
                    Err(Stop::Err(c, _)) => {
                        self.handle(h, c, v)?;
                    }
                    x => x?,
                }
            }
            S::Quote(q, b, e) => {
                self.quotes.insert(*q, (b, e));
            }
            S::Exec(q) => {
                let (b, r) = *self.quotes.get(q).ok_or(Stop::Bad)?;
                self.b(b, v)?;
                self.e(r, v)?;
            }
            S::Sleep(_) => (),
            S::LogSet(e) => self.level = self.e(e, v)?,
            S::LogDisable => self.level = 0,
            S::LogMsg(l, t, f) => {
                if self.level >= *l as i64 {
                    let n = LEVELS[*l as usize].to_uppercase();
                    let lines: Vec<String> = match f % 7 {
                        5 => vec![format!("m{}a", t), String::new(), format!("m{}b", t)],
                        6 => vec![format!("m{}a", t), String::new()],
                        0 => vec![format!("m{}", t)],
                        1 => vec![format!("m{} {}", t, t)],
                        2 => vec![format!("m{}a", t), format!("m{}b", t)],
                        3 => vec![format!("m{}a", t), format!("m{}b", t), format!("m{}c", t)],
                        _ => vec![t.to_string()],
                    };
                    for x in lines {
                        let _ = writeln!(W(&mut self.out), "[{}] {}", n, x);
                    }
                }
            }
            S::LogQ(e) => {
                let x = self.e(e, v)?;
                let _ = writeln!(W(&mut self.out), "{}", if x <= 0 || self.level >= x { "True" } else { "False" });
            }
            S::LogGet => {
                let l = self.level;
                let _ = writeln!(W(&mut self.out), "{}", l);
            }
            S::Cd(k) => {
                v.insert(CWDK, *k as i64 % 2);
            }
            S::Where(k) => {
                let d = DIRS[v[&CWDK] as usize];
                let _ = if k % 3 == 2 { writeln!(W(&mut self.out), "{:?}", d) } else { writeln!(W(&mut self.out), "{}", d) };
            }
        }
        Ok(())
    }
    fn prog(&mut self, t: u32) {
        self.out.extend_from_slice(format!("P{}\n", t).as_bytes());
        self.log.extend_from_slice(format!("<{}>", t).as_bytes());
    }
}
struct W<'a>(&'a mut Vec<u8>);
impl<'a> std::fmt::Write for W<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

// ------------------------------------------------------------------ generation
struct G {
    r: Rng,
    prop: String,
    next: u32,
    fns: Vec<(u32, usize, bool)>,
    quotes: Vec<u32>,
    progs: Vec<u32>,
    incs: usize,
    infn: bool,
    inincl: bool,
    size: usize,
    small: bool,
}
impl G {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn w(&self, props: &[&str], yes: usize, no: usize) -> usize {
        if props.contains(&&self.prop[..]) { yes } else { no }
    }
    fn e(&mut self, vars: &mut Vec<u32>, d: usize) -> E {
        let infn = self.infn;
        let ws = [
            (0, 4),
            (1, if vars.is_empty() { 0 } else { 4 }),
            (2, if self.small { 0 } else { self.w(&["C15"], 9, 3) }),
            (3, if d > 0 { 3 } else { 0 }),
            (4, if d > 0 && !self.fns.is_empty() { self.w(&["C15"], 6, 2) } else { 0 }),
            (5, if d > 0 { self.w(&["C14"], 5, 1) } else { 0 }),
            (6, if d > 0 { 1 } else { 0 }),
            (7, if d > 1 { 1 } else { 0 }),
            (8, if d > 0 { self.w(&["C15"], 2, 0) } else { 0 }),
            (9, if d > 0 { 1 } else { 0 }),
            (10, if self.incs > 0 && !infn && !self.inincl { self.w(&["C24"], 5, 0) } else { 0 }),
            (11, if self.incs > 0 && !infn && !self.inincl { self.w(&["C24"], 5, 0) } else { 0 }),
            (12, if !self.quotes.is_empty() && !infn { self.w(&["C15"], 2, 0) } else { 0 }),
            (13, if d > 0 { self.w(&["C14"], 2, 0) } else { 0 }),
            (14, if d > 0 && self.r.chance(1, 4) { self.w(&["C25"], 2, 0) } else { 0 }),
            (15, if d > 0 { self.w(&["C15"], 5, 0) } else { 0 }),
            (16, if d > 0 && !self.fns.iter().all(|f| f.2) { self.w(&["C15"], 4, 0) } else { 0 }),
            (17, if d > 0 { self.w(&["C15"], 3, 0) } else { 0 }),
        ];
        match self.choose(&ws) {
            15 => match self.r.n(3) {
                0 => {
                    let o = *self.r.pick(&['+', '-']);
                    E::Nary(o, (0..2 + self.r.n(3)).map(|_| self.e(vars, d - 1)).collect())
                }
                1 => E::Neg(Box::new(self.e(vars, d - 1))),
                _ => {
                    let n = 1 + self.r.n(4);
                    E::Lst(self.r.n(5) as u8, self.r.n(n), (0..n).map(|_| self.e(vars, d - 1)).collect())
                }
            },
            16 => {
                let c: Vec<_> = self.fns.iter().filter(|f| !f.2).cloned().collect();
                let (f, n, _) = *self.r.pick(&c);
                E::CallAs(self.r.n(3) as u8, f, (0..n).map(|_| self.e(vars, d - 1)).collect())
            }
            17 => {
                let p = self.id();
                let mac = !infn && self.r.chance(1, 2);
                let old = self.infn;
                self.infn = true;
                let mut inner = vars.clone();
                inner.push(p);
                let b = self.b(&mut inner, d.min(2) - 1, 2);
                let r = self.e(&mut inner, d - 1);
                self.infn = old;
                E::Imm(mac, p, b, Box::new(r), Box::new(self.e(vars, d - 1)))
            }
            0 => E::Lit(self.r.range(0, 9)),
            1 => E::Var(*self.r.pick(vars)),
            2 => {
                let t = self.id();
                // the parser's time grows exponentially with nested parentheses
                let old = self.small;
                self.small |= d <= 1;
                let e = self.e(vars, d.saturating_sub(1));
                self.small = old;
                E::Eff(t, Box::new(e))
            }
            3 => {
                let o = *self.r.pick(&['+', '-', '*', '+']);
                E::Bin(o, Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1)))
            }
            4 => {
                let c: Vec<_> = self.fns.iter().filter(|f| !(infn && f.2)).cloned().collect();
                if c.is_empty() {
                    return E::Lit(1);
                }
                let (f, n, _) = *self.r.pick(&c);
                E::Call(f, (0..n).map(|_| self.e(vars, d - 1)).collect())
            }
            5 => {
                let e = self.e(vars, d - 1);
                let e = if self.r.chance(1, 2) { E::Bin('+', Box::new(e), Box::new(self.fail())) } else { e };
                let h = self.h(vars, d - 1);
                E::Try(Box::new(e), Box::new(h))
            }
            6 => {
                let c = self.c(vars, d - 1);
                E::If(Box::new(c), Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1)))
            }
            7 => {
                let mut inner = vars.clone();
                let s = self.b(&mut inner, d - 1, 2);
                let e = self.e(&mut inner, d - 1);
                E::Blk(s, Box::new(e))
            }
            8 => {
                let (a, b) = (self.id(), self.id());
                let mut inner = vars.clone();
                inner.push(a);
                inner.push(b);
                let old = self.infn;
                self.infn = true;
                let e = self.e(&mut inner, d - 1);
                self.infn = old;
                let k = self.r.n(3) as u8;
                let l = (0..self.r.n(4)).map(|_| self.r.range(0, 6)).collect();
                E::Fold(k, a, b, Box::new(e), self.r.range(0, 3), l)
            }
            9 => E::Cond3(Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1)), Box::new(self.e(vars, d - 1))),
            10 => E::Incl(self.r.n(self.incs) as u32),
            11 => E::Impt(self.r.n(self.incs) as u32),
            12 => E::Eval(*self.r.pick(&self.quotes.clone())),
            13 => self.fail(),
            _ => {
                let e = if self.r.chance(2, 3) { E::Lit(*self.r.pick(&[0, 1, 2, 7, 42, 127, 128, 255, 256, 300, 65535, 4294967299])) } else { self.e(vars, d - 1) };
                E::Exit(Box::new(e))
            }
        }
    }
    fn fail(&mut self) -> E {
        // the runaway macro needs a scope that knows it
        loop {
            let f = *self.r.pick(FLS);
            if f == Fl::Deep && (self.infn || self.r.chance(3, 4)) {
                continue;
            }
            return E::Fail(f);
        }
    }
    fn h(&mut self, vars: &mut Vec<u32>, d: usize) -> H {
        let (var, tok) = (self.id(), self.id());
        let old = self.infn;
        self.infn = true;
        let mut inner = vars.clone();
        let body = if self.r.chance(1, 2) { self.b(&mut inner, d.min(1), 2) } else { vec![] };
        let ret = if self.r.chance(1, 10) && self.prop == "C14" { self.fail() } else { self.e(&mut inner, d.min(1)) };
        self.infn = old;
        H { var, tok, body, ret }
    }
    fn c(&mut self, vars: &mut Vec<u32>, d: usize) -> Cd {
        if self.prop == "C15" && self.r.chance(1, 6) {
            return Cd::Is(self.r.n(TRUTH.len()) as u8);
        }
        match self.r.n(if d > 0 { 6 } else { 3 }) {
            5 => Cd::Not(Box::new(self.c(vars, d - 1))),
            3 => Cd::And(Box::new(self.c(vars, d - 1)), Box::new(self.c(vars, d - 1))),
            4 => Cd::Or(Box::new(self.c(vars, d - 1)), Box::new(self.c(vars, d - 1))),
            _ => Cd::Cmp(*self.r.pick(&["<", ">", "==", "!=", "<=", ">="]), self.e(vars, d), self.e(vars, d)),
        }
    }
    fn choose(&mut self, ws: &[(usize, usize)]) -> usize {
        let tot: usize = ws.iter().map(|x| x.1).sum();
        let mut k = self.r.n(tot.max(1));
        for (i, w) in ws {
            if k < *w {
                return *i;
            }
            k -= w;
        }
        0
    }
    fn b(&mut self, vars: &mut Vec<u32>, d: usize, max: usize) -> Vec<S> {
        let n = 1 + self.r.n(max.max(1));
        let (nf, nq) = (self.fns.len(), self.quotes.len());
        let nv = vars.len();
        let s = (0..n).map(|_| self.s(vars, d)).collect();
        self.fns.truncate(nf);
        self.quotes.truncate(nq);
        vars.truncate(nv);
        s
    }
    fn arg(&mut self, vars: &mut Vec<u32>, d: usize) -> A {
        if self.r.chance(3, 5) { A::Tok(self.id()) } else { A::Val(self.e(vars, d.min(2))) }
    }
    fn s(&mut self, vars: &mut Vec<u32>, d: usize) -> S {
        let infn = self.infn;
        let top = d >= 3 && !infn;
        let big = self.size;
        let ws = [
            (0, self.w(&["C13"], 12, if self.prop == "C23" { 2 } else { 5 })),
            (1, self.w(&["C13", "C25"], 1, 0)),
            (2, 4),
            (3, 1),
            (4, if self.progs.len() < 14 { self.w(&["C13", "C25"], 6, 2) } else { 0 }),
            (5, if self.progs.len() < 14 { self.w(&["C13", "C14", "C25"], 3, 1) } else { 0 }),
            (6, 4),
            (7, if d > 0 { 2 } else { 0 }),
            (8, if d > 0 { 2 } else { 0 }),
            (9, if d > 0 { 3 } else { 0 }),
            (10, if d > 0 { 1 } else { 0 }),
            (11, if top { self.w(&["C15", "C14", "C25"], 4, 2) } else { 0 }),
            (12, if top { self.w(&["C15"], 2, 1) } else { 0 }),
            (13, self.w(&["C15", "C24"], 6, 2)),
            (14, if d > 0 { self.w(&["C15"], 3, 0) } else { 0 }),
            (15, if d > 0 { self.w(&["C14"], 8, 1) } else { 0 }),
            (16, if top { self.w(&["C15"], 3, 0) } else { 0 }),
            (17, if !infn && !self.quotes.is_empty() { 3 } else { 0 }),
            (18, self.w(&["C15"], 1, 0)),
            (19, self.w(&["C23"], 9, 0)),
            (20, self.w(&["C23"], 2, 0)),
            (21, self.w(&["C23"], 16, 0)),
            (22, self.w(&["C23"], 4, 0)),
            (23, self.w(&["C23"], 2, 0)),
            (24, if self.r.chance(1, 4) { self.w(&["C14"], 3, if self.prop == "C13" { 1 } else { 0 }) } else { 0 }),
            (25, if self.r.chance(1, 3) { self.w(&["C25"], 4, if self.prop == "C13" { 1 } else { 0 }) } else { 0 }),
            (26, self.w(&["C24"], 6, if infn { 0 } else { 1 })),
        ];
        match self.choose(&ws) {
            0 => {
                let k = self.r.n(6) as u8;
                let n = if k == 5 { 1 } else { 1 + self.r.n(3) };
                S::Print(k, (0..n).map(|_| self.arg(vars, d)).collect())
            }
            1 => S::Big(self.r.n(2) as u8, self.id(), *self.r.pick(&[200, 600, 3000, 30000])),
            2 => S::App(self.id(), self.r.n(3) as u8),
            3 => S::WriteF(self.r.n(3) as u8, self.id()),
            4 => {
                let t = self.id();
                self.progs.push(t);
                S::Run(t, self.r.n(3) as u8)
            }
            5 => self.pipe(),
            6 => {
                let re = !vars.is_empty() && self.r.chance(1, 2);
                let e = self.e(vars, d.min(3));
                let k = if re { *self.r.pick(vars) } else { self.id() };
                if !vars.contains(&k) {
                    vars.push(k);
                }
                S::Let(k, e)
            }
            7 => {
                let k = self.id();
                let l = (0..self.r.n(4)).map(|_| self.e(vars, d.min(2) - 1)).collect();
                let mut inner = vars.clone();
                inner.push(k);
                let mut b = self.b(&mut inner, d - 1, 3);
                self.acc(vars, k, &mut b);
                S::For(k, l, b)
            }
            8 => {
                let k = self.id();
                let a = E::Lit(self.r.range(0, 3));
                let z = E::Bin('+', Box::new(E::Lit(self.r.range(0, 4))), Box::new(if self.r.chance(1, 2) { E::Eff(self.id(), Box::new(E::Lit(1))) } else { E::Lit(1) }));
                let mut inner = vars.clone();
                inner.push(k);
                let mut b = self.b(&mut inner, d - 1, 3);
                self.acc(vars, k, &mut b);
                S::ForTo(k, a, z, b)
            }
            9 => {
                let c = self.c(vars, d.min(2) - 1);
                let a = self.b(&mut vars.clone(), d - 1, 2);
                let b = if self.r.chance(2, 3) { self.b(&mut vars.clone(), d - 1, 2) } else { vec![] };
                S::If(c, a, b)
            }
            10 => S::Block(self.b(&mut vars.clone(), d - 1, 3)),
            11 => {
                let f = self.id();
                let p: Vec<u32> = (0..1 + self.r.n(3)).map(|_| self.id()).collect();
                let old = self.infn;
                self.infn = true;
                let mut inner = vars.clone();
                inner.extend(&p);
                let b = self.b(&mut inner, d - 1, 3);
                let r = self.e(&mut inner, 2);
                self.infn = old;
                self.fns.push((f, p.len(), false));
                S::Fn(f, p, b, r)
            }
            12 => {
                let f = self.id();
                let p: Vec<u32> = (0..1 + self.r.n(3)).map(|_| self.id()).collect();
                let mut inner = vars.clone();
                inner.extend(&p);
                let b = self.b(&mut inner, 1, 2);
                let r = self.e(&mut inner, 1);
                self.fns.push((f, p.len(), true));
                S::Mac(f, p, b, r)
            }
            13 => S::Ex(match self.e(vars, d.min(3)) {
                // a bare value at the start of a statement would be a call or a name
                E::Lit(n) => E::Bin('+', Box::new(E::Lit(n)), Box::new(E::Lit(1))),
                E::Var(k) => E::Bin('+', Box::new(E::Var(k)), Box::new(E::Lit(1))),
                e => e,
            }),
            14 => {
                let (a, r) = (self.id(), self.id());
                let mut inner = vars.clone();
                inner.push(a);
                let old = self.infn;
                self.infn = true;
                let e = self.e(&mut inner, d.min(2) - 1);
                self.infn = old;
                S::MapF(self.r.n(2) as u8, a, r, e, (0..self.r.n(5)).map(|_| self.r.range(0, 6)).collect())
            }
            15 => {
                let mut inner = vars.clone();
                let mut b = self.b(&mut inner, d - 1, 3);
                if self.r.chance(1, 2) {
                    let f = self.fail();
                    let at = self.r.n(b.len() + 1);
                    b.insert(at, S::Ex(f));
                }
                let e = self.e(&mut inner, 1);
                let h = self.h(vars, d - 1);
                S::TryS(b, e, h)
            }
            16 => {
                let q = self.id();
                let mut inner = vars.clone();
                let b = self.b(&mut inner, 1, 2);
                let e = self.e(&mut inner, 1);
                self.quotes.push(q);
                S::Quote(q, b, e)
            }
            17 => S::Exec(*self.r.pick(&self.quotes.clone())),
            18 => S::Sleep(self.r.n(2000) as u32),
            19 => S::LogSet(match self.r.n(8) {
                0 | 1 => self.e(vars, 1),
                2 => E::Lit(*self.r.pick(&[-1, -3, -251, -256, 127, 128, 255, 256, 257, 261, 65536, 65539, 1 << 32, (1 << 32) + 2, i64::MAX, -i64::MAX])),
                _ => E::Lit(self.r.range(0, 7)),
            }),
            20 => S::LogDisable,
            21 => S::LogMsg(1 + self.r.n(5) as u8, self.id(), self.r.n(7) as u8),
            22 => S::LogQ(E::Lit(if self.r.chance(1, 5) { *self.r.pick(&[-1, -2, 256, 258, 1 << 32, i64::MAX]) } else { self.r.range(0, 7) })),
            23 => S::LogGet,
            24 => S::Ex(self.fail()),
            25 => S::Ex(E::Exit(Box::new(E::Lit(*self.r.pick(&[0, 1, 3, 200, 256, 1000]))))),
            26 => {
                let _ = big;
                if self.prop == "C24" || self.r.chance(1, 3) {
                    if self.r.chance(1, 2) { S::Where(self.r.n(3) as u8) } else { S::Cd(self.r.n(4) as u8) }
                } else {
                    S::Cd(0)
                }
            }
            _ => S::App(self.id(), 0),
        }
    }
    /// a loop that adds up in a variable outside of it
    fn acc(&mut self, vars: &[u32], k: u32, b: &mut Vec<S>) {
        if !vars.is_empty() && self.r.chance(1, 3) {
            let x = *self.r.pick(vars);
            b.push(S::Let(x, E::Bin('+', Box::new(E::Var(x)), Box::new(E::Var(k)))));
        }
    }
    fn pipe(&mut self) -> S {
        let first = if self.r.chance(1, 2) { Some(self.id()) } else { None };
        let n = 1 + self.r.n(3);
        let n = if first.is_none() { n.max(2) } else { n };
        let mut st = vec![];
        for i in 0..n {
            let headless = first.is_none() && i == 0;
            if headless || self.r.chance(3, 5) {
                let t = self.id();
                self.progs.push(t);
                let cat = !headless && self.r.chance(2, 3);
                st.push(St::Prog(t, cat));
            } else {
                let v = self.id();
                let last = i + 1 == n;
                if last && self.r.chance(1, 4) && self.prop == "C14" {
                    st.push(St::FailFun(v, *self.r.pick(&[Fl::Int, Fl::Read, Fl::NotFound, Fl::Apply])));
                } else if last && self.r.chance(1, 4) && self.prop == "C25" {
                    st.push(St::ExitFun(v, self.r.range(0, 400)));
                } else {
                    let t = self.id();
                    st.push(St::Fun(v, t));
                }
            }
        }
        S::Pipe(first, st)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Src {
    File,
    Exec,
    Prelude,
    Session,
}
pub struct ProgCase {
    prop: String,
    base: Scen,
    units: Vec<(Src, S)>,
    incs: Vec<Inc>,
    file_bad: u8,
    /// how often the text given with -x is cut into several words
    split: usize,
    exec_bad: bool,
    has_file: bool,
    has_exec: bool,
    interactive: bool,
    outfile: bool,
}
const HEADER: &str = "let eff = efft -> effn -> { effx efft; effn };\nlet deep = dx ~> (deep dx);\n";

fn bad_tail(b: u8) -> &'static str {
    match b {
        1 => "\nlet = 5;\n",
        2 => "\necho (1 + ];\n",
        _ => "\nif 1 { echo 2;\n",
    }
}
impl ProgCase {
    fn text(&self, keep: &[bool], src: Src) -> String {
        let mut o = String::new();
        let sep = if src == Src::Exec { " " } else { "\n" };
        for (i, (s, u)) in self.units.iter().enumerate() {
            if *s == src && keep[i] {
                o.push_str(&u.t());
                o.push_str(sep);
            }
        }
        o
    }
    /// runs the model: (file system and output, how it ends)
    fn model(&self, keep: &[bool], cand: Option<Cand>) -> (M<'_>, Option<i64>, Vec<String>, bool) {
        let mut m = M { incs: Some(&self.incs), cand, ..Default::default() };
        let mut v = Vars::from([(CWDK, 0)]);
        let mut errs = vec![];
        let srcs: &[Src] = &[Src::File, Src::Exec, Src::Prelude, Src::Session];
        // after a failing prelude the first line answers the question about it
        let mut answer = false;
        for src in srcs {
            match src {
                Src::File if !self.has_file => continue,
                Src::Exec if !self.has_exec => continue,
                Src::Prelude | Src::Session if !self.interactive => continue,
                _ => (),
            }
            if *src == Src::File {
                match m.prim() {
                    Ok(Some(_)) => {
                        errs.push(String::new());
                        continue;
                    }
                    _ => (),
                }
                if self.file_bad != 0 {
                    errs.push(String::new());
                    continue;
                }
            }
            if *src == Src::Exec && self.exec_bad {
                errs.push(String::new());
                continue;
            }
            let mut failed = false;
            for (i, (s, u)) in self.units.iter().enumerate() {
                if s != src || !keep[i] {
                    continue;
                }
                if *src == Src::Session && answer {
                    answer = false;
                    continue;
                }
                match m.s(u, &mut v) {
                    Ok(()) => (),
                    Err(Stop::Exit(n)) => return (m, Some(n), errs, true),
                    Err(Stop::Bad) => return (m, None, errs, false),
                    Err(Stop::Err(_, t)) => {
                        // the prelude's failure is told in the question, which only a terminal shows
                        if *src != Src::Prelude {
                            errs.push(t);
                        }
                        failed = true;
                        answer |= *src == Src::Prelude;
                        if *src != Src::Session {
                            break;
                        }
                    }
                }
            }
            if *src == Src::Exec && !failed {
                // the value of the command is shown
                match m.prim() {
                    Ok(None) => m.out.extend_from_slice(b"0\n"),
                    _ => {
                        errs.push(String::new());
                        return (m, Some(1), errs, true);
                    }
                }
            }
        }
        (m, None, errs, true)
    }
}
/// marks of log messages made uniform: "[LEVEL] text" lines, whatever the colours and the final newline
fn lognorm(o: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(o);
    let mut s = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
            continue;
        }
        s.push(c);
    }
    for l in &LEVELS[1..] {
        let m = format!("[{}]", l.to_uppercase());
        s = s.replace(&m, &format!("\n{}", m));
    }
    let mut o = String::new();
    for l in s.split('\n') {
        if !l.trim().is_empty() {
            o.push_str(l.trim());
            o.push('\n');
        }
    }
    o.into_bytes()
}
fn firstdiff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|x| x.0 == x.1).count();
    let from = k.saturating_sub(40);
    format!("at byte {}: got ...{} expected ...{} (lengths {} and {})", k, short(&a[from..a.len().min(k + 80)]), short(&b[from..b.len().min(k + 80)]), a.len(), b.len())
}

/// Cuts a text at some of its single blanks; joined with blanks, the words give the text again.
fn exec_words(t: &str, split: usize) -> Vec<String> {
    let b = t.as_bytes();
    let (mut out, mut from, mut seen) = (vec![], 0, 0);
    for i in 1..b.len().saturating_sub(1) {
        if split > 0 && b[i] == b' ' && !b" -".contains(&b[i - 1]) && !b" -".contains(&b[i + 1]) {
            seen += 1;
            if seen % split == 0 {
                out.push(t[from..i].to_string());
                from = i + 1;
            }
        }
    }
    out.push(t[from..].to_string());
    out
}

impl Case for ProgCase {
    fn nops(&self) -> usize {
        self.units.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        let mut file = HEADER.replace("effx efft", "efft >>> \"log\"");
        let head = file.clone();
        file.push_str(&self.text(keep, Src::File));
        match self.file_bad {
            0 => (),
            b @ 1..=3 => file.push_str(bad_tail(b)),
            _ => (),
        }
        s.argv.clear();
        if self.has_file {
            match self.file_bad {
                4 => {
                    let mut c = file.into_bytes();
                    c.extend_from_slice(b"\n\"\xff\xfe\";\n");
                    s.file("/s.ds", &c);
                }
                5 => (),
                6 => s.dir("/s.ds"),
                _ => s.file("/s.ds", file.as_bytes()),
            }
            s.argv.push("/s.ds".into());
        }
        if self.has_exec {
            s.argv.push("-x".into());
            let mut t = head.replace('\n', " ");
            t.push_str(&self.text(keep, Src::Exec));
            t.push_str(" 0");
            if self.exec_bad {
                t.push_str(" ]");
            }
            // the commands may be spread over several words of the command line
            for w in exec_words(&t, self.split) {
                s.argv.push(w);
            }
        }
        if self.interactive {
            if !self.has_exec || self.has_file {
                s.argv.push("-i".into());
            } else {
                s.argv.insert(0, "-i".into());
            }
            let mut p = head.clone();
            p.push_str(&self.text(keep, Src::Prelude));
            s.file("/home/u/.dune-prelude", p.as_bytes());
            s.stdin = format!("source {}", hex(self.text(keep, Src::Session).as_bytes()));
        }
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = String::new();
        for src in [Src::File, Src::Exec, Src::Prelude, Src::Session] {
            let t = self.text(keep, src.clone());
            if !t.is_empty() {
                let _ = write!(o, "[{:?}]\n{}\n", src, t);
            }
        }
        for (i, c) in self.incs.iter().enumerate() {
            if o.contains(&format!("inc{}.ds", i)) {
                let _ = write!(o, "[inc{}.ds, malformed {}]\n{} {}\n", i, c.bad, block(&c.body), c.ret.t());
            }
        }
        if self.file_bad != 0 {
            let _ = write!(o, "[the file is malformed or unreadable: {}]\n", self.file_bad);
        }
        o
    }
    fn check(&self, keep: &[bool], _mods: &Mods, t: &Trace) -> Chk {
        let (m, exit, errs, ok) = self.model(keep, None);
        if !ok {
            return bad("!invalid", "the minimised script uses something it does not define");
        }
        let Some(end) = t.end() else {
            return if t.how == "killed" { Ok(()) } else { bad("crash", format!("the shell ended ({} {}): {}", t.how, t.code, short(&t.out(3, 0)))) };
        };
        let read = |p: &str| t.file(end, p).map(|x| x.to_vec());
        let out = if self.outfile { read("/home/u/out").unwrap_or_default() } else { t.out(2, -1) };
        let log = read("/home/u/log").unwrap_or_default();
        let norm = |o: &[u8]| if self.prop == "C23" { lognorm(o) } else { o.to_vec() };
        let out = norm(&out);
        // exec shows its value
        let want_out = |m: &M, exit: Option<i64>, ok: bool| -> Vec<u8> {
            let _ = (exit, ok);
            norm(&m.out)
        };
        if t.how == "killed" || t.how == "signal" {
            let w = want_out(&m, exit, true);
            if self.prop != "C23" && !w.starts_with(&out) {
                return bad("kill-output", format!("text printed before the kill is not a prefix: {}", firstdiff(&out, &w)));
            }
            if !m.log.starts_with(&log) {
                return bad("kill-effects", format!("effects before the kill are not a prefix: {}", firstdiff(&log, &m.log)));
            }
            return Ok(());
        }
        if t.how != "exit" {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {}", t.how, t.code, short(&t.out(3, 0))));
        }
        let first = t.evs.iter().position(|e| matches!(e, Ev::Fault { .. })).unwrap_or(0);
        let hard = hard_in(t, first, t.evs.len());
        let stderr = lossy(&t.out(3, 0));
        let judge = |m: &M, exit: Option<i64>, errs: &[String]| -> Chk {
            let w = want_out(m, exit, true);
            if out != w {
                return bad("output", firstdiff(&out, &w));
            }
            if log != m.log {
                return bad("effects", format!("log {}", firstdiff(&log, &m.log)));
            }
            for k in 0..3u8 {
                let got = read(&format!("/home/u/f{}", k));
                if got.as_ref() != m.files.get(&k) {
                    return bad("effects", format!("file f{} holds {:?}, expected {:?}", k, got.map(|x| lossy(&x)), m.files.get(&k).map(|x| lossy(x))));
                }
            }
            let code = exit.unwrap_or(0).rem_euclid(256);
            if t.code.trim() != code.to_string() {
                return bad("status", format!("exit status {}, expected {}", t.code, code));
            }
            if errs.is_empty() && !stderr.trim().is_empty() && !hard {
                return bad("stderr", format!("nothing failed, yet standard error holds {}", short(stderr.as_bytes())));
            }
            if !errs.is_empty() && stderr.trim().is_empty() {
                return bad("stderr", "the error was not reported on standard error");
            }
            for e in errs {
                if !stderr.contains(e.as_str()) {
                    return bad("stderr", format!("standard error does not say what failed ({:?}): {}", e, short(stderr.as_bytes())));
                }
            }
            Ok(())
        };
        let r = judge(&m, exit, &errs);
        if r.is_ok() || !hard {
            if r.is_ok() {
                // nothing else may have changed
                let st = t.start();
                for (p, n) in &end.nodes {
                    let ps = lossy(p);
                    if ps == "/home/u/log" || ps == "/home/u/out" || ps.starts_with("/home/u/.dune-history") || (ps.len() == 10 && ps.starts_with("/home/u/f")) {
                        continue;
                    }
                    match (st.nodes.get(p), n) {
                        (Some(a), b) if a.0 == b.0 => (),
                        (Some((Node::File(a), _)), (Node::File(b), _)) if t.bytes(*a) == t.bytes(*b) => (),
                        _ => return bad("effects", format!("{} was changed although the script does not name it", ps)),
                    }
                }
            }
            return r;
        }
        // a system call failed: the run must be the one in which exactly that operation failed, with some code
        let n = m.nprim + 4;
        for at in 0..n {
            for code in [9, 3, 6, 7] {
                for part in 0..8 {
                    let (m2, x2, e2, ok2) = self.model(keep, Some(Cand { at, part, code }));
                    if !m2.hit {
                        break;
                    }
                    if ok2 && judge(&m2, x2, &e2).is_ok() {
                        return Ok(());
                    }
                }
            }
        }
        let Err(v) = r else { return Ok(()) };
        bad(&format!("fault-{}", v.kind), format!("with a failing system call, and not explained by one failed operation: {}", v.msg))
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        // calls of the script itself
        let from = t.evs.iter().position(|e| matches!(e, Ev::Sys { path, cls, .. } if *cls == C_OPEN && (path.starts_with("/s.ds") || path.contains("/home/u/log")))).unwrap_or(t.evs.len());
        let mut pts = vec![];
        for e in &t.evs[from..] {
            if let Ev::Sys { seq, cls, name, path, ret, .. } = e {
                pts.push(Point { seq: *seq, cls: *cls, name: name.clone(), path: path.clone(), op: 0, ret: *ret });
            }
        }
        let mut v = vec![];
        let hard: Vec<&Point> = pts
            .iter()
            .filter(|p| matches!(p.cls, C_OPEN | C_READ | C_WRITE) && (p.path.contains("/home/u/log") || p.path.contains("/home/u/f") || p.path.contains(".ds")) || p.cls == C_SPAWN)
            .collect();
        let nh = if self.interactive { 0 } else { match &self.prop[..] { "C24" => budget / 2, "C14" => budget * 2 / 5, _ => budget / 5 } };
        for _ in 0..nh {
            if hard.is_empty() {
                break;
            }
            let p = *r.pick(&hard);
            let e: Vec<i64> = legal_errs(p.cls, &p.path).into_iter().filter(|x| *x != EINTR).collect();
            if !e.is_empty() {
                v.push(fault(p.seq, FaultKind::Errno(*r.pick(&e))));
            }
        }
        if matches!(&self.prop[..], "C13" | "C15") && !pts.is_empty() {
            for _ in 0..budget / 8 {
                v.push(fault(r.pick(&pts).seq, FaultKind::Kill));
            }
        }
        while v.len() < budget {
            let mut m = soft(r);
            if r.chance(1, 3) && !pts.is_empty() {
                // a signal the shell ignores or does not handle specially
                m.sigs.push((r.pick(&pts).seq, *r.pick(&[17, 28, 18])));
            }
            if r.chance(1, 4) && !pts.is_empty() {
                m.jumpseq.push((r.pick(&pts).seq, *r.pick(&[3_600_000_000_000, -3_600_000_000_000, 1_000_000])));
            }
            v.push(m);
        }
        v
    }
}

pub fn make(prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    for attempt in 0..50 {
        let c = make1(prop, seed.wrapping_add(attempt << 40), thorough);
        let keep = vec![true; c.units.len()];
        let (m, exit, errs, ok) = c.model(&keep, None);
        // enough must happen, and for C14/C25 what the property is about must occur
        let busy = m.log.len() + m.out.len() > 10;
        let apt = match prop {
            "C14" => m.handled > 0 || !errs.is_empty(),
            "C25" => exit.is_some() || attempt % 5 == 4,
            _ => true,
        };
        if ok && busy && apt {
            return Box::new(c);
        }
    }
    Box::new(make1("C13", seed ^ 1, false))
}
fn make1(prop: &str, seed: u64, thorough: bool) -> ProgCase {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.file("/home/u/log", b"");
    s.dir("/home/u/sub");
    for f in ["log", "f0", "f1", "f2"] {
        s.link(&format!("/home/u/sub/{}", f), &format!("../{}", f));
    }
    for k in 0..8 {
        s.link(&format!("/home/u/sub/inc{}.ds", k), &format!("../inc{}.ds", k));
    }
    s.link("/home/bin", "/bin");
    s.prog("deepish", "exit 0");
    s.fs.push(Init::File(b"/bin/garbage".to_vec(), 0o755, b"not a program".to_vec()));
    s.fs.push(Init::File(b"/bin/noexec".to_vec(), 0o644, b"#!sim exit 0".to_vec()));
    let mut g = G { r: r.fork(), prop: prop.into(), next: 0, fns: vec![], quotes: vec![], progs: vec![], incs: 0, infn: false, inincl: false, size: 0, small: false };
    // included files
    let mut incs = vec![];
    if prop == "C24" || (prop == "C23" && r.chance(1, 3)) {
        g.inincl = true;
        for _ in 0..1 + r.n(3) {
            let mut vars = vec![];
            let mut body = vec![];
            for _ in 0..1 + g.r.n(4) {
                let s = g.s(&mut vars, 2);
                body.push(s);
            }
            let ret = g.e(&mut vars, 1);
            let bad = if r.chance(2, 5) { 1 + r.n(7) as u8 } else { 0 };
            incs.push(Inc { body, ret, bad });
            g.quotes.clear();
            g.fns.clear();
        }
        g.inincl = false;
        g.incs = incs.len();
    }
    for (i, c) in incs.iter().enumerate() {
        let mut t = format!("{}\n{}", c.body.iter().map(|x| x.t()).collect::<Vec<_>>().join("\n"), c.ret.t());
        let p = format!("/home/u/inc{}.ds", i);
        match c.bad {
            0 => s.file(&p, t.as_bytes()),
            1..=3 => {
                t.push(';');
                t.push_str(bad_tail(c.bad));
                s.file(&p, t.as_bytes());
            }
            4 => {
                let mut b = t.into_bytes();
                b.extend_from_slice(b";\n\"\xff\xfe\";\n");
                s.file(&p, &b);
            }
            5 => (),
            6 => s.dir(&p),
            _ => {
                s.link(&p, "/home/u/missing.ds");
            }
        }
    }
    let (mut has_file, mut has_exec, mut interactive) = (true, false, false);
    if prop == "C24" {
        match r.n(6) {
            0 => has_exec = true,
            1 => {
                has_file = false;
                has_exec = true;
            }
            2 => interactive = true,
            3 => {
                has_exec = true;
                interactive = true;
            }
            _ => (),
        }
    }
    let mut units = vec![];
    let mut vars: Vec<u32> = vec![];
    let file_bad = if prop == "C24" && r.chance(1, 4) { 1 + r.n(6) as u8 } else { 0 };
    let exec_bad = prop == "C24" && has_exec && r.chance(1, 5);
    let n = if thorough { 6 + r.n(16) } else { 4 + r.n(8) };
    for src in [Src::File, Src::Exec, Src::Prelude, Src::Session] {
        let (on, k) = match src {
            Src::File => (has_file, n),
            Src::Exec => (has_exec, n / 2 + 1),
            Src::Prelude => (interactive, 2),
            Src::Session => (interactive, 3),
        };
        if !on {
            continue;
        }
        if src != Src::File {
            // what an earlier text defined may be missing when it failed
            vars.clear();
            g.fns.clear();
            g.quotes.clear();
        }
        for _ in 0..k {
            let u = if src == Src::Session {
                // entries whose value is not shown
                match g.r.n(if prop == "C24" { 4 } else { 3 }) {
                    3 => S::Where(g.r.n(3) as u8),
                    0 => S::App(g.id(), 0),
                    1 => S::Print(0, vec![A::Tok(g.id())]),
                    _ => S::Print(2, vec![A::Tok(g.id())]),
                }
            } else {
                g.s(&mut vars, 3)
            };
            units.push((src.clone(), u));
        }
        // what the variables hold at the end
        if src == Src::File && matches!(prop, "C13" | "C14" | "C15") && !vars.is_empty() {
            units.push((Src::File, S::Print(0, vars.iter().map(|k| A::Val(E::Var(*k))).collect())));
        }
        if prop == "C25" && src == Src::File {
            let e = *g.r.pick(&[0i64, 1, 2, 5, 255, 256, 513, 100000]);
            let at = g.r.n(units.len() + 1);
            if g.r.chance(2, 3) {
                units.insert(at, (Src::File, S::Ex(E::Exit(Box::new(E::Lit(e))))));
            }
        }
    }
    for t in &g.progs {
        let noise = match r.n(6) {
            0 => "sleep 5 ",
            1 => "yield ",
            _ => "",
        };
        let fin = match r.n(6) {
            0 => "exit 3",
            1 => "die 15",
            2 => "sleep 2 exit 0",
            _ => "exit 0",
        };
        s.prog(&format!("p{}", t), &format!("app /home/u/log {} {}out {} {}", hex(format!("<{}>", t).as_bytes()), noise, hex(format!("P{}\n", t).as_bytes()), fin));
        s.prog(&format!("c{}", t), &format!("app /home/u/log {} {}cat {}", hex(format!("<{}>", t).as_bytes()), noise, fin));
    }
    let outfile = prop == "C13" && r.chance(1, 4);
    if outfile {
        s.stdout = "file /home/u/out".into();
        s.file("/home/u/out", b"");
    }
    if r.chance(1, 2) {
        s.knob("chunk", 1 + r.n(2) as i64);
    }
    if r.chance(1, 3) {
        s.knob("stick", *r.pick(&[0, 100, 500]));
    }
    let split = if prop == "C24" { [0, 1, 3, 9][r.n(4)] } else { 0 };
    ProgCase { prop: prop.into(), base: s, units, incs, file_bad, split, exec_bad, has_file, has_exec, interactive, outfile }
}
