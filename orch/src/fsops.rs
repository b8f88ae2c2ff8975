//! Engine A: sequences of file-system operations judged one by one against the reference model,
//! from the real state before each operation to the real state after it.
use crate::base::*;
use crate::model::*;
use crate::runner::*;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    Bytes(String, Vec<u8>),
    Expr(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(String, V, u8),
    Append(String, V, u8),
    Read(String, u8),
    Head(String, i64),
    Tail(String, i64),
    Cp(String, String),
    Mv(String, String),
    Rm(String),
    Rmdir(String),
    Mkdir(String),
    Ls(String),
    Exists(String),
    IsDir(String),
    IsFile(String),
    Canon(String),
    Glob(String),
    /// directory (None: the current one), levels
    Tree(Option<String>, Option<i64>),
    Cd(String, u8),
    Pwd(u8),
    Launch(String),
    PipeLaunch(String, String),
    Weird(String),
}
#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub ctx: u8,
}
pub struct FsCase {
    pub prop: String,
    pub base: Scen,
    pub steps: Vec<Step>,
    /// other processes change names starting with zz, append <zzN> tokens, or make these directories
    pub actors: bool,
    pub shared_dirs: Vec<Vec<u8>>,
    /// tree that another process rearranges while it is being removed
    pub racy: Option<Vec<u8>>,
    pub perms: bool,
    pub killable: bool,
}

pub fn prop_of(op: &Op) -> &'static str {
    match op {
        Op::Write(..) => "C01",
        Op::Append(..) => "C02",
        Op::Read(..) | Op::Head(..) | Op::Tail(..) => "C03",
        Op::Cp(..) => "C04",
        Op::Mv(..) => "C05",
        Op::Rm(_) | Op::Rmdir(_) => "C06",
        Op::Mkdir(_) => "C07",
        Op::Ls(_) | Op::Exists(_) | Op::IsDir(_) | Op::IsFile(_) | Op::Canon(_) | Op::Glob(_) | Op::Tree(..) => "C08",
        Op::Cd(..) | Op::Pwd(_) | Op::Launch(_) | Op::PipeLaunch(..) => "C09",
        Op::Weird(_) => "C26",
    }
}
fn vtext(v: &V, k: usize) -> String {
    match v {
        V::Str(s) => dstr(s),
        V::Bytes(p, _) => format!("(fs@read {})", dstr(p)),
        V::Expr(_) => format!("val{}", k),
    }
}
impl Step {
    pub fn text(&self, k: usize) -> String {
        let mut pre = String::new();
        let mut path = |p: &str, n: usize| -> String {
            match self.ctx % 8 {
                1 => {
                    let _ = write!(pre, "let pa{}x{} = {};\n", k, n, dstr(p));
                    format!("pa{}x{}", k, n)
                }
                2 if p.chars().count() > 1 && !p.contains('\0') => {
                    let c: Vec<char> = p.chars().collect();
                    let h = c.len() / 2;
                    format!("({} + {})", dstr(&c[..h].iter().collect::<String>()), dstr(&c[h..].iter().collect::<String>()))
                }
                _ => dstr(p),
            }
        };
        let mut strof = false;
        let mut firstpath = String::new();
        let core = match &self.op {
            Op::Write(p, v, f) | Op::Append(p, v, f) => {
                let w = matches!(self.op, Op::Write(..));
                let pt = path(p, 0);
                firstpath = pt.clone();
                if let V::Expr(e) = v {
                    strof = true;
                    let _ = write!(pre, "let val{} = {};\n", k, e);
                }
                let vt = vtext(v, k);
                if *f == 0 {
                    format!("fs@{} {} {}", if w { "write" } else { "append" }, pt, vt)
                } else {
                    format!("{} {} {}", vt, if w { ">>" } else { ">>>" }, pt)
                }
            }
            Op::Read(p, f) => {
                firstpath = path(p, 0);
                if *f == 0 { format!("fs@read {}", firstpath) } else { format!("<< {}", firstpath) }
            }
            Op::Head(p, n) => { firstpath = path(p, 0); format!("fs@head {} {}", firstpath, num(*n)) }
            Op::Tail(p, n) => { firstpath = path(p, 0); format!("fs@tail {} {}", firstpath, num(*n)) }
            Op::Cp(a, b) => { let x = path(a, 0); let y = path(b, 1); format!("fs@cp {} {}", x, y) }
            Op::Mv(a, b) => { let x = path(a, 0); let y = path(b, 1); format!("fs@mv {} {}", x, y) }
            Op::Rm(p) => { firstpath = path(p, 0); format!("fs@rm {}", firstpath) }
            Op::Rmdir(p) => { firstpath = path(p, 0); format!("fs@rmdir {}", firstpath) }
            Op::Mkdir(p) => { firstpath = path(p, 0); format!("fs@mkdir {}", firstpath) }
            Op::Ls(p) => { firstpath = path(p, 0); format!("fs@ls {}", firstpath) }
            Op::Exists(p) => { firstpath = path(p, 0); format!("fs@exists? {}", firstpath) }
            Op::IsDir(p) => { firstpath = path(p, 0); format!("fs@is-dir? {}", firstpath) }
            Op::IsFile(p) => { firstpath = path(p, 0); format!("fs@is-file? {}", firstpath) }
            Op::Canon(p) => { firstpath = path(p, 0); format!("fs@canon {}", firstpath) }
            Op::Glob(p) => format!("fs@glob {}", path(p, 0)),
            Op::Tree(p, n) => {
                let mut t = "fs@tree".to_string();
                if let Some(n) = n {
                    let _ = write!(t, " {}", num(*n));
                }
                if let Some(p) = p {
                    firstpath = path(p, 0);
                    let _ = write!(t, " {}", firstpath);
                }
                t
            }
            Op::Cd(p, f) => match f {
                0 => format!("cd {}", path(p, 0)),
                1 => format!("sys@cd {}", path(p, 0)),
                // these must leave the caller where it is
                2 => format!("(u -> {{ cd {}; CWD }}) 0", dstr(p)),
                3 => format!("(u -> {{ cd {}; fs@write \"zzin\" \"in\"; fs@read \"zzin\" }}) 0", dstr(p)),
                4 => format!("eval '(cd {})", dstr(p)),
                5 => format!("sys@import \"/mod/cd{}.ds\"", k),
                6 => format!("sys@include \"/mod/cd{}.ds\"", k),
                // an argument moves the caller, and the body with it
                8 => format!("(u -> CWD) (cd {})", dstr(p)),
                9 => format!("(u -> v -> (sys@cwd ())) 1 (cd {})", dstr(p)),
                10..=13 => moved(p, *f),
                _ => format!("(u -> {{ cd {}; (sys@cwd ()) }}) 0", dstr(p)),
            },
            Op::Pwd(f) => match f {
                0 => "CWD".into(),
                1 => "sys@cwd ()".into(),
                2 => "((u -> CWD) 0)".into(),
                _ => "fs@canon \".\"".into(),
            },
            Op::Launch(p) => p.clone(),
            Op::PipeLaunch(a, b) => format!("{} | {}", a, b),
            Op::Weird(t) => t.clone(),
        };
        let core = match self.ctx % 8 {
            3 if !firstpath.is_empty() && core.contains(&firstpath) && !matches!(self.op, Op::Cp(..) | Op::Mv(..)) => {
                format!("(q -> ({})) {}", core.replacen(&firstpath, "q", 1), firstpath)
            }
            4 => format!("(if True {{ {} }} else {{ 0 }})", core),
            // a function sees only the names its own text mentions, so a file it imports could not use cd
            5 if !matches!(&self.op, Op::Cd(_, 5 | 6)) => format!("((zzu -> ({})) 0)", core),
            _ => core,
        };
        // a cd in a function, eval or block scope of its own would not move the caller
        let core = match &self.op {
            Op::Cd(p, 0) => format!("cd {}", dstr(p)),
            Op::Cd(p, 1) => format!("sys@cd {}", dstr(p)),
            Op::Cd(p, 8) => format!("(u -> CWD) (cd {})", dstr(p)),
            Op::Cd(p, 9) => format!("(u -> v -> (sys@cwd ())) 1 (cd {})", dstr(p)),
            Op::Cd(p, f @ 10..=13) => moved(p, *f),
            _ => core,
        };
        let call = format!("(err@try ({}) (e -> [\"ERR\", e@code, e@message]))", core);
        if strof {
            format!("{}debug [\"@@{}\", [{}, (str val{})]];\n", pre, k, call, k)
        } else {
            format!("{}debug [\"@@{}\", {}];\n", pre, k, call)
        }
    }
}
/// More places where a `cd` moves whoever called it.
fn moved(p: &str, f: u8) -> String {
    match f {
        10 => format!("(u -> v -> (sys@cwd ())) (cd {}) 1", dstr(p)),
        11 => format!("(u ~> CWD) (cd {})", dstr(p)),
        12 => format!("(u ~> v ~> CWD) (cd {}) 1", dstr(p)),
        _ => format!("(for u in [1] {{ cd {}; CWD }}) @ 0", dstr(p)),
    }
}
fn num(n: i64) -> String {
    if n < 0 { format!("(0 - {})", -n) } else { n.to_string() }
}

// ------------------------------------------------------------------ judging one operation
fn norm_tokens(c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i..].starts_with(b"<zz") {
            if let Some(k) = c[i..].iter().take(12).position(|&x| x == b'>') {
                i += k + 1;
                continue;
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
impl FsCase {
    fn norm(&self, f: &Fs) -> Fs {
        let mut g = f.clone();
        let drop: Vec<Vec<u8>> = g.n.keys().filter(|p| p.split(|&c| c == b'/').any(|c| c.starts_with(b"zz")) || self.racy.as_ref().map_or(false, |r| under(p, r))).cloned().collect();
        for p in drop {
            g.n.remove(&p);
        }
        for d in &self.shared_dirs {
            if g.get(d) == Some(&M::Dir) {
                g.n.remove(d);
            }
        }
        if self.actors {
            for (_, (m, _)) in g.n.iter_mut() {
                if let M::File(c) = m {
                    if c.windows(3).any(|w| w == b"<zz") {
                        *m = M::File(std::rc::Rc::new(norm_tokens(c)));
                    }
                }
            }
        }
        g
    }
    fn same(&self, a: &Fs, b: &Fs) -> Option<String> {
        if self.actors {
            self.norm(a).diff(&self.norm(b))
        } else {
            a.diff(b)
        }
    }
}
fn vbytes(v: &V, strtext: Option<&str>) -> Option<Vec<u8>> {
    match v {
        V::Str(s) => Some(s.as_bytes().to_vec()),
        V::Bytes(_, b) => Some(b.clone()),
        V::Expr(_) => strtext.map(|s| s.as_bytes().to_vec()),
    }
}
fn same_path_components(cwd: &[u8], a: &str, b: &str) -> bool {
    let f = |p: &str| -> Vec<Vec<u8>> { joinp(cwd, p.as_bytes()).split(|&c| c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect() };
    f(a) == f(b)
}
fn lexical(cwd: &[u8], p: &[u8]) -> Vec<u8> {
    let full = joinp(cwd, p);
    let mut v: Vec<&[u8]> = vec![];
    for c in full.split(|&c| c == b'/') {
        match c {
            b"" | b"." => (),
            b".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    let mut o = vec![];
    for c in v {
        o.push(b'/');
        o.extend_from_slice(c);
    }
    if o.is_empty() {
        o.push(b'/');
    }
    o
}
/// shell-glob match of one name
pub fn gmatch(p: &[char], n: &[char]) -> bool {
    if p.is_empty() {
        return n.is_empty();
    }
    match p[0] {
        '*' => (0..=n.len()).any(|i| gmatch(&p[1..], &n[i..])),
        '?' => !n.is_empty() && gmatch(&p[1..], &n[1..]),
        '[' => {
            let Some(e) = p.iter().skip(2).position(|&c| c == ']').map(|x| x + 2) else { return false };
            if n.is_empty() {
                return false;
            }
            let (neg, set) = if p[1] == '!' { (true, &p[2..e]) } else { (false, &p[1..e]) };
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    if set[i] <= n[0] && n[0] <= set[i + 2] {
                        hit = true;
                    }
                    i += 3;
                } else {
                    if set[i] == n[0] {
                        hit = true;
                    }
                    i += 1;
                }
            }
            hit != neg && gmatch(&p[e + 1..], &n[1..])
        }
        c => !n.is_empty() && n[0] == c && gmatch(&p[1..], &n[1..]),
    }
}
/// None: pattern malformed
pub fn glob_model(f: &Fs, cwd: &[u8], pat: &str) -> Option<Vec<Vec<u8>>> {
    let bytes: Vec<char> = pat.chars().collect();
    // malformed: an unclosed [ or *** or ** next to other text
    let mut i = 0;
    while i < bytes.len() {
        if bytes[i] == '[' {
            let s = if bytes.get(i + 1) == Some(&'!') { i + 3 } else { i + 2 };
            match bytes.iter().skip(s).position(|&c| c == ']') {
                None => return None,
                Some(k) => i = s + k,
            }
        }
        i += 1;
    }
    for c in pat.split('/') {
        if c.contains("***") || (c.contains("**") && c != "**") {
            return None;
        }
    }
    let mut cur: Vec<Vec<u8>> = vec![if pat.starts_with('/') { b"/".to_vec() } else { cwd.to_vec() }];
    for c in pat.split('/').filter(|c| !c.is_empty() && *c != ".") {
        let pc: Vec<char> = c.chars().collect();
        let mut next = vec![];
        for d in cur {
            // paths stay lexical; look through links to list
            if c == ".." {
                next.push(joinp(&d, b".."));
                continue;
            }
            if !c.contains(|x| matches!(x, '*' | '?' | '[')) {
                let p = joinp(&d, c.as_bytes());
                if f.at(b"/", &p).is_some() {
                    next.push(p);
                }
                continue;
            }
            let Some(real) = f.at(b"/", &d) else { continue };
            if f.get(&real) != Some(&M::Dir) {
                continue;
            }
            for k in f.kids(&real) {
                let nm = k[k.iter().rposition(|&c| c == b'/').unwrap() + 1..].to_vec();
                if let Ok(s) = std::str::from_utf8(&nm) {
                    if gmatch(&pc, &s.chars().collect::<Vec<_>>()) {
                        next.push(joinp(&d, &nm));
                    }
                }
            }
        }
        cur = next;
    }
    Some(cur.into_iter().map(|p| lexical(b"/", &p)).collect())
}

enum Pred {
    /// must succeed with this file system; the value is checked separately
    Ok(Fs),
    /// must be refused
    Fail,
    /// may do either, leaving the file system as it was
    Either,
    /// may fail; when it succeeds the result must be this
    Maybe(Fs),
}

impl FsCase {
    fn predict(&self, op: &Op, f: &Fs, cwd: &[u8], strtext: Option<&str>) -> Pred {
        let b = |p: &str| joinp(cwd, p.as_bytes());
        let cwd_ok = f.get(cwd) == Some(&M::Dir);
        match op {
            Op::Write(p, v, _) | Op::Append(p, v, _) => {
                let create = matches!(op, Op::Write(..));
                let Some(c) = vbytes(v, strtext) else { return Pred::Either };
                let path = b(p);
                match f.resolve(b"/", &path, true) {
                    Ok(r) => {
                        let mut g = f.clone();
                        if r.exists {
                            match f.get(&r.path) {
                                Some(M::File(old)) => {
                                    if !f.may(&r.path, 2) {
                                        return Pred::Fail;
                                    }
                                    let mut n = if create { vec![] } else { old.to_vec() };
                                    n.extend_from_slice(&c);
                                    g.put(&r.path, n);
                                    Pred::Ok(g)
                                }
                                Some(M::Dir) => Pred::Fail,
                                _ => Pred::Either,
                            }
                        } else if !create || r.trailing || !f.may(&r.parent, 3) {
                            Pred::Fail
                        } else {
                            g.put(&r.path, c);
                            Pred::Ok(g)
                        }
                    }
                    Err(_) => Pred::Fail,
                }
            }
            Op::Read(p, _) => match f.at(b"/", &b(p)) {
                Some(q) => match f.get(&q) {
                    Some(M::File(_)) if f.may(&q, 4) => Pred::Ok(f.clone()),
                    Some(M::Dev) => Pred::Either,
                    _ => Pred::Fail,
                },
                None => Pred::Fail,
            },
            Op::Head(p, _) | Op::Tail(p, _) => match f.at(b"/", &b(p)) {
                Some(q) => match f.get(&q) {
                    Some(M::File(c)) if f.may(&q, 4) => {
                        if std::str::from_utf8(c).is_ok() { Pred::Ok(f.clone()) } else { Pred::Either }
                    }
                    Some(M::Dev) => Pred::Either,
                    _ => Pred::Fail,
                },
                None => Pred::Fail,
            },
            Op::Cp(s, d) => {
                if same_path_components(cwd, s, d) {
                    return if f.at(b"/", &b(s)).is_some() { Pred::Either } else { Pred::Fail };
                }
                let (sp, dp) = (b(s), b(d));
                let Some(src) = f.at(b"/", &sp) else { return Pred::Fail };
                if let Ok(r) = f.resolve(b"/", &dp, false) {
                    if r.exists {
                        return Pred::Fail;
                    }
                }
                let mut g = f.clone();
                match f.get(&src) {
                    Some(M::Dir) => {
                        let par = {
                            let mut t = dp.clone();
                            while t.len() > 1 && t.last() == Some(&b'/') {
                                t.pop();
                            }
                            t
                        };
                        if g.mkdir_all(b"/", &par).is_err() {
                            return Pred::Fail;
                        }
                        let Some(dst) = g.at(b"/", &par) else { return Pred::Fail };
                        if under(&dst, &src) {
                            return Pred::Fail;
                        }
                        // what the copy will read, taken before anything is made
                        let mut h = g.clone();
                        match h.copy_tree(&src, &dst) {
                            Ok(()) => Pred::Ok(h),
                            Err(_) => Pred::Fail,
                        }
                    }
                    Some(M::File(_)) => {
                        let Ok(r) = f.resolve(b"/", &dp, true) else { return Pred::Fail };
                        if r.exists || r.trailing || !f.may(&r.parent, 3) {
                            return Pred::Fail;
                        }
                        match g.copy_tree(&src, &r.path) {
                            Ok(()) => Pred::Ok(g),
                            Err(_) => Pred::Fail,
                        }
                    }
                    _ => Pred::Either,
                }
            }
            Op::Mv(s, d) => {
                if same_path_components(cwd, s, d) {
                    return match f.resolve(b"/", &b(s), false) {
                        Ok(r) if r.exists => Pred::Either,
                        _ => Pred::Fail,
                    };
                }
                let (sp, dp) = (b(s), b(d));
                let Ok(src) = f.resolve(b"/", &sp, false) else { return Pred::Fail };
                if !src.exists || matches!(src.name.as_slice(), b"." | b"..") || src.path == b"/" {
                    return Pred::Fail;
                }
                let Ok(dst) = f.resolve(b"/", &dp, false) else { return Pred::Fail };
                if dst.exists || matches!(dst.name.as_slice(), b"." | b"..") {
                    return Pred::Fail;
                }
                let isdir = f.get(&src.path) == Some(&M::Dir);
                if under(&dst.path, &src.path) || (dst.trailing && !isdir) {
                    return Pred::Fail;
                }
                if !f.may(&src.parent, 3) || !f.may(&dst.parent, 3) {
                    return Pred::Fail;
                }
                let mut g = f.clone();
                let mut all = f.below(&src.path);
                all.push(src.path.clone());
                for p in all {
                    let x = g.n.remove(&p).unwrap();
                    let mut q = dst.path.clone();
                    q.extend_from_slice(&p[src.path.len()..]);
                    g.n.insert(q, x);
                }
                if isdir && !f.may(&src.path, 2) {
                    // moving a directory we may not write to another parent can be refused
                    return Pred::Maybe(g);
                }
                Pred::Ok(g)
            }
            Op::Rm(p) => {
                let path = b(p);
                let Ok(r) = f.resolve(b"/", &path, false) else { return Pred::Fail };
                if !r.exists {
                    return Pred::Fail;
                }
                if matches!(r.name.as_slice(), b"." | b"..") || r.path == b"/" {
                    return Pred::Fail;
                }
                if r.trailing && f.get(&r.path) != Some(&M::Dir) {
                    return Pred::Fail;
                }
                if !f.can_remove(&r.path) {
                    return Pred::Fail;
                }
                let mut g = f.clone();
                g.remove_tree(&r.path);
                Pred::Ok(g)
            }
            Op::Rmdir(p) => {
                let path = b(p);
                let Ok(r) = f.resolve(b"/", &path, false) else { return Pred::Fail };
                if !r.exists || f.get(&r.path) != Some(&M::Dir) || matches!(r.name.as_slice(), b"." | b"..") {
                    return Pred::Fail;
                }
                if !f.kids(&r.path).is_empty() || !f.may(&r.parent, 3) {
                    return Pred::Fail;
                }
                let mut g = f.clone();
                g.n.remove(&r.path);
                Pred::Ok(g)
            }
            Op::Mkdir(p) => {
                let mut g = f.clone();
                match g.mkdir_all(b"/", &b(p)) {
                    Ok(()) => Pred::Ok(g),
                    Err(_) => Pred::Fail,
                }
            }
            Op::Ls(p) => match f.at(b"/", &b(p)) {
                Some(q) => match f.get(&q) {
                    Some(M::Dir) if f.may(&q, 4) => Pred::Ok(f.clone()),
                    Some(M::File(_)) => Pred::Ok(f.clone()),
                    Some(M::Dev) => Pred::Either,
                    _ => Pred::Fail,
                },
                None => Pred::Fail,
            },
            Op::Exists(_) | Op::IsDir(_) | Op::IsFile(_) | Op::Tree(..) => Pred::Ok(f.clone()),
            Op::Canon(p) => match f.at(b"/", &b(p)) {
                Some(q) if std::str::from_utf8(&q).is_ok() => Pred::Ok(f.clone()),
                Some(_) => Pred::Either,
                None => Pred::Fail,
            },
            Op::Glob(p) => {
                if self.perms || f.n.keys().any(|k| std::str::from_utf8(k).is_err()) {
                    return Pred::Either;
                }
                match glob_model(f, cwd, p) {
                    None => Pred::Fail,
                    Some(_) => Pred::Ok(f.clone()),
                }
            }
            Op::Cd(p, kind) => {
                let r = match f.at(b"/", &b(p)) {
                    Some(q) if f.get(&q) == Some(&M::Dir) && f.may(&q, 1) => {
                        if std::str::from_utf8(&q).is_ok() { Some(q) } else { return Pred::Either }
                    }
                    _ => None,
                };
                match (r, kind) {
                    (None, _) => Pred::Fail,
                    (Some(q), 3) => {
                        let mut g = f.clone();
                        if !f.may(&q, 3) {
                            return Pred::Fail;
                        }
                        let t = joinp(&q, b"zzin");
                        match g.get(&t) {
                            None | Some(M::File(_)) => (),
                            _ => return Pred::Either,
                        }
                        g.put(&t, b"in".to_vec());
                        Pred::Ok(g)
                    }
                    _ => Pred::Ok(f.clone()),
                }
            }
            Op::Pwd(3) => if cwd_ok { Pred::Ok(f.clone()) } else { Pred::Fail },
            Op::Pwd(_) => Pred::Ok(f.clone()),
            Op::Launch(_) | Op::PipeLaunch(..) => if cwd_ok { if f.may(cwd, 1) { Pred::Ok(f.clone()) } else { Pred::Either } } else { Pred::Either },
            Op::Weird(_) => Pred::Either,
        }
    }

    /// what an operation that failed, or was cut short, may leave behind
    fn partial_ok(&self, op: &Op, f: &Fs, post: &Fs, cwd: &[u8], strtext: Option<&str>, interrupted: bool) -> Option<String> {
        let b = |p: &str| joinp(cwd, p.as_bytes());
        let (f, post) = if self.actors { (self.norm(f), self.norm(post)) } else { (f.clone(), post.clone()) };
        let changed: Vec<Vec<u8>> = {
            let mut v = vec![];
            for (p, (m, _)) in &f.n {
                if post.n.get(p).map(|x| &x.0) != Some(m) {
                    v.push(p.clone());
                }
            }
            for p in post.n.keys() {
                if !f.n.contains_key(p) {
                    v.push(p.clone());
                }
            }
            v
        };
        let only = |ok: &dyn Fn(&Vec<u8>) -> bool| -> Option<String> {
            for p in &changed {
                if !ok(p) {
                    return Some(format!("{} was {} and is now {}", lossy(p), f.get(p).map_or("absent".into(), show), post.get(p).map_or("absent".into(), show)));
                }
            }
            None
        };
        match op {
            Op::Write(p, v, _) | Op::Append(p, v, _) => {
                let w = matches!(op, Op::Write(..));
                let t = f.resolve(b"/", &b(p), true).ok().map(|r| r.path);
                let c = match v {
                    V::Expr(_) if strtext.is_none() => None,
                    _ => vbytes(v, strtext),
                };
                only(&|q| {
                    if Some(q) != t.as_ref() {
                        return false;
                    }
                    let old: Vec<u8> = match f.get(q) {
                        Some(M::File(x)) => x.to_vec(),
                        None if w => vec![],
                        _ => return false,
                    };
                    let Some(M::File(n)) = post.get(q) else { return false };
                    let mut pre = if w { vec![] } else { old };
                    match &c {
                        Some(c) => pre.extend_from_slice(c),
                        None => return n.starts_with(&pre),
                    }
                    // what was written so far, no longer than the whole
                    pre.starts_with(n) && (w || n.len() >= pre.len() - c.as_ref().map_or(0, |c| c.len()))
                })
            }
            Op::Cp(s, d) => {
                let Some(src) = f.at(b"/", &b(s)) else { return only(&|_| false) };
                let dst = match post.resolve(b"/", &b(d), true).or_else(|_| f.resolve(b"/", &b(d), true)) {
                    Ok(r) => r.path,
                    Err(_) => lexical(cwd, d.as_bytes()),
                };
                if f.lexists(b"/", &b(d)) {
                    return only(&|_| false);
                }
                only(&|q| {
                    if f.get(q).is_some() {
                        return false;
                    }
                    if under(&dst, q) && q != &dst {
                        return post.get(q) == Some(&M::Dir);
                    }
                    if !under(q, &dst) {
                        // a missing parent made through a link or ".."
                        return post.get(q) == Some(&M::Dir) && post.below(q).iter().all(|x| post.get(x) == Some(&M::Dir) || under(x, &dst));
                    }
                    let rel = &q[dst.len()..];
                    let from = if rel.is_empty() { Some(src.clone()) } else { f.at(&src, &rel[1..]) };
                    match (post.get(q), from.and_then(|x| f.get(&x).cloned())) {
                        (Some(M::Dir), Some(M::Dir)) => true,
                        (Some(M::File(n)), Some(M::File(o))) => o.starts_with(n),
                        // made before its source could not be read
                        (Some(M::File(n)), Some(_)) => n.is_empty(),
                        _ => false,
                    }
                })
            }
            Op::Mv(..) => {
                if changed.is_empty() {
                    return None;
                }
                if interrupted {
                    if let Pred::Ok(g) | Pred::Maybe(g) = self.predict(op, &f, cwd, None) {
                        if post.diff(&g).is_none() {
                            return None;
                        }
                    }
                }
                only(&|_| false)
            }
            Op::Rm(p) => {
                let t = match f.resolve(b"/", &b(p), false) {
                    Ok(r) if r.exists => r.path,
                    _ => return only(&|_| false),
                };
                only(&|q| under(q, &t) && post.get(q).is_none())
            }
            Op::Rmdir(_) => {
                if interrupted && !changed.is_empty() {
                    if let Pred::Ok(g) = self.predict(op, &f, cwd, None) {
                        if post.diff(&g).is_none() {
                            return None;
                        }
                    }
                }
                only(&|_| false)
            }
            Op::Mkdir(p) => {
                // some of the missing directories
                let mut g = f.clone();
                let r = g.mkdir_all(b"/", &b(p));
                let _ = r;
                only(&|q| f.get(q).is_none() && post.get(q) == Some(&M::Dir) && (g.get(q) == Some(&M::Dir)))
            }
            Op::Cd(p, 3) => {
                let t = f.at(b"/", &b(p)).map(|q| joinp(&q, b"zzin"));
                only(&|q| Some(q) == t.as_ref() && matches!(post.get(q), Some(M::File(c)) if b"in".starts_with(c)))
            }
            Op::Weird(_) => None,
            _ => only(&|_| false),
        }
    }

    fn value_ok(&self, op: &Op, f: &Fs, cwd: &[u8], v: &Val, hard: bool, stathard: bool) -> Option<String> {
        let b = |p: &str| joinp(cwd, p.as_bytes());
        let expect = |want: Val| if *v == want { None } else { Some(format!("returned {}, expected {}", vs(v), vs(&want))) };
        match op {
            Op::Read(p, _) => {
                let Some(M::File(c)) = f.at(b"/", &b(p)).and_then(|q| f.get(&q).cloned()) else { return None };
                let c = if self.actors { norm_tokens(&c) } else { c.to_vec() };
                let v2 = match v {
                    Val::Str(s) if self.actors => Val::Str(String::from_utf8_lossy(&norm_tokens(s.as_bytes())).into_owned()),
                    x => x.clone(),
                };
                let want = match String::from_utf8(c.clone()) {
                    Ok(s) => Val::Str(s),
                    Err(_) => Val::Bytes(c),
                };
                if v2 == want { None } else { Some(format!("returned {}, expected {}", vs(&v2), vs(&want))) }
            }
            Op::Head(p, n) | Op::Tail(p, n) => {
                let Some(M::File(c)) = f.at(b"/", &b(p)).and_then(|q| f.get(&q).cloned()) else { return None };
                let Ok(s) = std::str::from_utf8(&c) else { return None };
                let l: Vec<&str> = s.lines().collect();
                let n = (*n).max(0) as usize;
                let sel: Vec<&str> = if matches!(op, Op::Head(..)) { l.iter().take(n).cloned().collect() } else { l[l.len().saturating_sub(n)..].to_vec() };
                expect(Val::Str(sel.iter().map(|x| format!("{}\n", x)).collect()))
            }
            Op::Ls(p) => {
                let q = f.at(b"/", &b(p))?;
                let Some(mut got) = v.strs() else { return Some(format!("returned {}", vs(v))) };
                if f.get(&q) != Some(&M::Dir) {
                    let w = lossy(&b(p));
                    return if got.len() == 1 && (got[0] == w || lexical(b"/", got[0].as_bytes()) == lexical(b"/", w.as_bytes()) || got[0] == *p) { None } else { Some(format!("listing a file gave {:?}", got)) };
                }
                let mut want: Vec<String> = f
                    .kids(&q)
                    .iter()
                    .map(|k| {
                        let nm = &k[k.iter().rposition(|&c| c == b'/').unwrap() + 1..];
                        match std::str::from_utf8(nm) {
                            Ok(s) => std::path::Path::new(p).join(s).to_string_lossy().to_string(),
                            Err(_) => lossy(nm),
                        }
                    })
                    .collect();
                if self.actors {
                    let z = |s: &String| !s.rsplit('/').next().unwrap_or("").starts_with("zz");
                    got.retain(z);
                    want.retain(z);
                }
                // an entry whose name is not text may be shown with or without the directory in front
                let strip = |s: &String| if s.contains('\u{fffd}') { s.rsplit('/').next().unwrap().to_string() } else { s.clone() };
                let mut g2: Vec<String> = got.iter().map(strip).collect();
                let mut w2: Vec<String> = want.iter().map(strip).collect();
                g2.sort();
                w2.sort();
                if g2 == w2 { None } else { Some(format!("listed {:?}, the directory holds {:?}", g2, w2)) }
            }
            Op::Tree(p, n) => {
                let top = match p {
                    Some(p) => std::path::Path::new(&lossy(cwd)).join(p),
                    None => std::path::PathBuf::from(lossy(cwd)),
                };
                let q = f.at(b"/", top.to_string_lossy().as_bytes())?;
                if self.perms || stathard || hard || !f.is_dir(b"/", &q) {
                    return None;
                }
                fn zz(v: &Val) -> Val {
                    match v {
                        Val::Map(m) => Val::Map(m.iter().filter(|(k, _)| !k.starts_with("zz")).map(|(k, v)| (k.clone(), zz(v))).collect()),
                        v => v.clone(),
                    }
                }
                let want = tree_model(f, &top, *n);
                let (g, w) = if self.actors { (zz(v), zz(&want)) } else { (v.clone(), want) };
                if g == w { None } else { Some(format!("gave {}, expected {}", vs(&g), vs(&w))) }
            }
            Op::Exists(p) => {
                if hard || self.perms && f.resolve(b"/", &b(p), true).err() == Some(E::Access) { return None; }
                expect(Val::Bool(f.at(b"/", &b(p)).is_some()))
            }
            Op::IsDir(p) => {
                if hard { return None; }
                expect(Val::Bool(f.is_dir(b"/", &b(p))))
            }
            Op::IsFile(p) => {
                if hard { return None; }
                expect(Val::Bool(f.is_file(b"/", &b(p))))
            }
            Op::Canon(p) => expect(Val::Str(lossy(&f.at(b"/", &b(p))?))),
            Op::Glob(p) => {
                if self.perms || f.n.keys().any(|k| std::str::from_utf8(k).is_err()) {
                    return None;
                }
                let mut want: Vec<Vec<u8>> = glob_model(f, cwd, p)?;
                let Some(got) = v.strs() else { return Some(format!("returned {}", vs(v))) };
                let mut g: Vec<Vec<u8>> = got.iter().map(|s| lexical(cwd, s.as_bytes())).collect();
                if self.actors {
                    let z = |s: &Vec<u8>| !s.rsplit(|c| *c == b'/').next().unwrap_or(b"").starts_with(b"zz");
                    g.retain(z);
                    want.retain(z);
                }
                g.sort();
                want.sort();
                want.dedup();
                // an entry that cannot be examined is taken for a non-directory
                if stathard && g.iter().all(|x| want.contains(x)) {
                    return None;
                }
                if g == want { None } else { Some(format!("glob gave {:?}, the pattern matches {:?}", got, want.iter().map(|x| lossy(x)).collect::<Vec<_>>())) }
            }
            Op::Cd(p, k) => {
                let q = f.at(b"/", &b(p))?;
                match k {
                    2 | 7..=13 => expect(Val::Str(lossy(&q))),
                    3 => expect(Val::Str("in".into())),
                    _ => None,
                }
            }
            Op::Pwd(_) => expect(Val::Str(lossy(cwd))),
            _ => None,
        }
    }
}
pub fn vs(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.chars().count() > 200 { format!("{}... ({} chars)", s.chars().take(160).collect::<String>(), s.chars().count()) } else { s }
}

impl Case for FsCase {
    fn nops(&self) -> usize {
        self.steps.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        let mut text = String::from("debug [\"@@0\", 0];\n");
        for (i, st) in self.steps.iter().enumerate() {
            if let Op::Cd(p, 5 | 6) = &st.op {
                s.file(&format!("/mod/cd{}.ds", i + 1), format!("cd {}; CWD", dstr(p)).as_bytes());
            }
            if keep[i] {
                text.push_str(&st.text(i + 1));
            }
        }
        s.script(&text);
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        let mut o = String::new();
        for (i, st) in self.steps.iter().enumerate() {
            if keep[i] {
                let t = st.text(i + 1);
                o.push_str(&if t.len() > 700 { format!("{}...\n", t.chars().take(600).collect::<String>()) } else { t });
            }
        }
        o
    }
    fn check(&self, keep: &[bool], _m: &Mods, t: &Trace) -> Chk {
        let out = t.out(2, 0);
        let vals = marks(&out);
        let ms: Vec<usize> = (0..t.snaps.len()).filter(|i| t.snaps[*i].why == "mark").collect();
        let killed = t.how == "killed";
        if ms.is_empty() {
            if self.prop == "C26" && (t.how == "exit" && t.code.trim() == "101" || t.how == "signal" && !killed) {
                return bad("crash", format!("the shell crashed while starting ({} {}): {}", t.how, t.code, short(&t.out(3, 0))));
            }
            return if killed || t.how == "signal" { Ok(()) } else { bad("!harness", format!("script did not start: {} {} {}", t.how, t.code, short(&t.out(3, 0)))) };
        }
        let live: Vec<usize> = (0..self.steps.len()).filter(|i| keep[*i]).collect();
        let mut cwd: Vec<u8> = b"/home/u".to_vec();
        let mut f = Fs::of(t, &t.snaps[ms[0]]);
        let mut from = t.snaps[ms[0]].ev;
        let mine = |op: &Op| self.prop == prop_of(op) || (self.prop == "C26");
        let fsprop = self.prop != "C26";
        for (n, &i) in live.iter().enumerate() {
            let st = &self.steps[i];
            let k = i + 1;
            let Some(&mi) = ms.get(n + 1) else {
                // the operation in flight when the run ended
                let Some(e) = t.end() else { return Ok(()) };
                let hard = hard_in(t, from, t.evs.len());
                if killed || fsprop && mine(&st.op) {
                    let post = Fs::of(t, e);
                    let judged = mine(&st.op) || self.prop == "C27";
                    if judged && fsprop && !matches!(st.op, Op::Weird(_)) {
                        if let Some(w) = self.partial_ok(&st.op, &f, &post, &cwd, None, true) {
                            return bad(if killed { "kill" } else { "cut" }, format!("after {} during `{}`: {}", if killed { "a kill" } else { "the end" }, st.text(k).trim(), w));
                        }
                    }
                }
                if killed {
                    return Ok(());
                }
                if mine(&st.op) {
                    let kind = match t.how.as_str() {
                        "exit" => "died",
                        // crossterm, once the terminal is gone
                        "steplimit" if st.text(k).contains("read-key ()") && t.evs.iter().any(|e| matches!(e, Ev::Input { kind: 0 | 3, .. })) => "key-hangup",
                        "deadlock" | "steplimit" => "hang",
                        _ => "crash",
                    };
                    return bad(kind, format!("the shell ended ({} {}) during `{}`{}: {}", t.how, t.code, st.text(k).trim(), if hard { " after a failed system call" } else { "" }, short(&t.out(3, 0))));
                }
                return Ok(());
            };
            let to = t.snaps[mi].ev;
            let hard = hard_in(t, from, to);
            let post = Fs::of(t, &t.snaps[mi]);
            let Some(v) = vals.get(&k) else {
                if killed {
                    return Ok(());
                }
                return bad("!harness", format!("mark {} without a value in {}", k, short(&out)));
            };
            let (v, strtext) = match (&st.op, v) {
                (Op::Write(_, V::Expr(_), _) | Op::Append(_, V::Expr(_), _), Val::List(l)) if l.len() == 2 => (l[0].clone(), if let Val::Str(s) = &l[1] { Some(s.clone()) } else { None }),
                _ => (v.clone(), None),
            };
            let isq = !matches!(st.op, Op::Weird(_));
            let err = v.err().is_some();
            let pred = self.predict(&st.op, &f, &cwd, strtext.as_deref());
            let judge = self.racy.is_none() || !matches!(&st.op, Op::Rm(_));
            if isq && fsprop && mine(&st.op) {
                let d = |kind: &str, w: String| -> Chk { bad(kind, format!("`{}` in {}{}: {}", st.text(k).trim(), lossy(&cwd), if hard { " with a failing system call" } else { "" }, w)) };
                if !judge {
                    // another process is rearranging the tree: nothing outside it may change
                    let (a, b) = (self.norm(&f), self.norm(&post));
                    if let Some(w) = b.diff(&a) {
                        return d("outside", w);
                    }
                } else if err {
                    if let Some(w) = self.partial_ok(&st.op, &f, &post, &cwd, strtext.as_deref(), false) {
                        return d("failed-but-changed", w);
                    }
                    if let Pred::Ok(_) = pred {
                        if !hard {
                            return d("refused", format!("failed although nothing was wrong: {}", v.err().unwrap().1));
                        }
                    }
                    // without a failing system call, a refused single-object operation changes nothing
                    if !hard && !matches!(st.op, Op::Cp(..) | Op::Rm(_) | Op::Mkdir(_) | Op::Cd(_, 3)) {
                        if let Some(w) = self.same(&post, &f) {
                            return d("failed-but-changed", w);
                        }
                    }
                } else {
                    match &pred {
                        Pred::Fail => return d("accepted", format!("succeeded with {} although it could not", vs(&v))),
                        Pred::Ok(g) | Pred::Maybe(g) => {
                            if let Some(w) = self.same(&post, g) {
                                return d("wrong-effect", w);
                            }
                        }
                        Pred::Either => {
                            if let Some(w) = self.same(&post, &f) {
                                return d("wrong-effect", w);
                            }
                        }
                    }
                    if let Some(w) = self.value_ok(&st.op, &f, &cwd, &v, hard, hard_cls(t, from, to, C_STAT)) {
                        return d("wrong-value", w);
                    }
                    if let Op::Mkdir(p) = &st.op {
                        if !post.is_dir(b"/", &joinp(&cwd, p.as_bytes())) {
                            return d("wrong-effect", "the directory does not exist".into());
                        }
                    }
                    if let Op::Append(p, val, _) = &st.op {
                        if self.actors {
                            if let Some(w) = self.append_tokens(&f, &post, &cwd, p, val, &t.evs[from..to]) {
                                return d("wrong-effect", w);
                            }
                        }
                    }
                    let nl = match &st.op {
                        Op::Launch(_) => 1,
                        Op::PipeLaunch(..) => 2,
                        _ => 0,
                    };
                    if nl > 0 {
                        let sp: Vec<&Spawn> = t.evs[from..to].iter().filter_map(|e| if let Ev::Spawn(s) = e { Some(s) } else { None }).collect();
                        if sp.len() != nl {
                            return d("launch", format!("{} programs started, expected {}", sp.len(), nl));
                        }
                        for s in sp {
                            if s.cwd.as_deref() != Some(&cwd[..]) {
                                return d("launch-dir", format!("{} started in {}", lossy(&s.file), s.cwd.as_ref().map_or("nowhere".into(), |x| lossy(x))));
                            }
                        }
                    }
                }
            }
            // the directory the next operation runs in
            if let Op::Cd(p, 0 | 1 | 6 | 8..=13) = &st.op {
                if !err {
                    if let Some(q) = f.at(b"/", &joinp(&cwd, p.as_bytes())) {
                        cwd = q;
                    }
                }
            }
            f = post;
            from = to;
        }
        // all operations finished
        let mustexit = t.how == "exit" && t.code.trim() == "0";
        if !mustexit && !killed && self.prop == "C26" {
            return bad("died", format!("the script ended with {} {}: {}", t.how, t.code, short(&t.out(3, 0))));
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let all = points(t);
        let mine: Vec<Point> = all.iter().filter(|p| self.prop == "C26" || self.prop == "C27" || self.steps.get(p.op).map_or(false, |s| prop_of(&s.op) == self.prop)).cloned().collect();
        let src = if mine.is_empty() { &all } else { &mine };
        let mut v: Vec<Mods> = vec![];
        if src.is_empty() {
            return v;
        }
        // every call of the operations under test, each with one error it can give
        let mut single: Vec<Mods> = vec![];
        for p in src {
            let e = legal_errs(p.cls, &p.path);
            if e.is_empty() {
                continue;
            }
            single.push(fault(p.seq, FaultKind::Errno(*r.pick(&e))));
            if e.len() > 1 {
                single.push(fault(p.seq, FaultKind::Errno(*r.pick(&e))));
            }
            if matches!(p.cls, C_READ | C_WRITE | C_COPY) {
                single.push(fault(p.seq, FaultKind::Short(r.range(1, 9))));
            }
        }
        r.shuffle(&mut single);
        let kills = if self.killable { budget / 4 } else { 0 };
        let kills = if self.prop == "C27" { budget * 3 / 4 } else { kills };
        let singles = if self.prop == "C27" { 0 } else { budget - budget / 5 - kills };
        for m in single.into_iter().take(singles) {
            v.push(m);
        }
        for _ in 0..kills {
            let p = r.pick(src);
            v.push(fault(p.seq, FaultKind::Kill));
        }
        while v.len() < budget {
            match r.n(5) {
                0 => {
                    // two failures in one run
                    let mut m = Mods::default();
                    for _ in 0..2 + r.n(2) {
                        let p = r.pick(src);
                        let e = legal_errs(p.cls, &p.path);
                        if !e.is_empty() {
                            m.faults.push(FaultSpec { seq: p.seq, kind: FaultKind::Errno(*r.pick(&e)) });
                        }
                    }
                    v.push(m);
                }
                1 => {
                    // a disk that fills up
                    let mut m = Mods::default();
                    let used: usize = t.start().nodes.values().map(|(n, _)| if let Node::File(x) = n { t.bytes(*x).len() } else { 0 }).sum();
                    m.knobs.insert("quota", used as i64 + r.range(0, 3000));
                    if self.prop == "C27" {
                        m = soft(r);
                        m.faults.push(FaultSpec { seq: r.pick(src).seq, kind: FaultKind::Kill });
                    }
                    v.push(m);
                }
                2 if self.prop == "C27" => {
                    let mut m = Mods::default();
                    m.sigs.push((r.pick(src).seq, *r.pick(&[15, 9, 1])));
                    if m.sigs[0].1 == 9 {
                        m = fault(m.sigs[0].0, FaultKind::Kill);
                    }
                    v.push(m);
                }
                _ => v.push(soft(r)),
            }
        }
        v
    }
}
impl FsCase {
    /// text other processes appended to the same file meanwhile must all be there, once
    fn append_tokens(&self, pre: &Fs, post: &Fs, cwd: &[u8], p: &str, val: &V, evs: &[Ev]) -> Option<String> {
        let path = pre.at(b"/", &joinp(cwd, p.as_bytes()))?;
        let (Some(M::File(a)), Some(M::File(b))) = (pre.get(&path), post.get(&path)) else { return None };
        let _ = val;
        // what other programs appended meanwhile is there, once, in their order
        let mut want = vec![];
        for e in evs {
            if let Ev::Actor(l) = e {
                let w: Vec<&str> = l.split(' ').collect();
                if w.len() == 5 && w[2] == "app" && w[4] == "0" && joinp(b"/", w[3].as_bytes()) == path {
                    want.push(format!("<zz{}", &w[1]));
                }
            }
        }
        let toks = |c: &[u8]| c.windows(3).filter(|w| w == b"<zz").count();
        if toks(b) != toks(a) + want.len() {
            return Some(format!("other programs appended {} times meanwhile, the file has {} of these: {} became {}", want.len(), toks(b) as i64 - toks(a) as i64, short(a), short(b)));
        }
        // the earlier contents are an untouched prefix
        if !b.starts_with(a) {
            return Some(format!("the file no longer starts with its earlier contents {}: {}", short(a), short(b)));
        }
        None
    }
}

// ------------------------------------------------------------------ generation
const NAMES: &[&str] = &["a", "b", "c", "d1", "d2", "x.txt", "y.txt", "z z", "\u{e9}t\u{e9}", ".hid", "-n", "a.b.c", "it's", "q\"t", "A", "long-name-for-a-file", "w*", "[x]", "tab\there", "a ", " b", "x.txt ", "y.txt\n", "~", "~u", "$HOME", "%41"];
pub fn content(r: &mut Rng) -> Vec<u8> {
    match r.n(12) {
        0 => vec![],
        1 => b"x".to_vec(),
        2 => "h\u{e9}llo \u{1F600} w\u{f6}rld\n".as_bytes().to_vec(),
        3 => vec![0xff, 0xfe, 0, 1, 2, b'\n', 0x80],
        4 => (0..r.n(300)).map(|_| r.next() as u8).collect(),
        5 => (0..8000 + r.n(70000)).map(|i| if i % 61 == 60 { b'\n' } else { b'a' + (i % 26) as u8 }).collect(),
        6 => b"no newline at end\nlast".to_vec(),
        7 => b"\n\n\n".to_vec(),
        8 => (0..1 + r.n(30)).flat_map(|i| format!("line {}\n", i).into_bytes()).collect(),
        9 => "\u{e9}".repeat(1 + r.n(5000)).into_bytes(),
        10 => format!("{}", r.n(100000)).into_bytes(),
        _ => format!("text {}\nmore\n", r.n(1000)).into_bytes(),
    }
}
fn textv(r: &mut Rng) -> String {
    loop {
        if let Ok(s) = String::from_utf8(content(r)) {
            return s;
        }
    }
}
pub struct Gen {
    pub r: Rng,
    pub f: Fs,
    pub cwd: Vec<u8>,
    pub allow_weird: bool,
}
fn empty_trace_snap(s: &Scen) -> Fs {
    let mut f = Fs { n: Default::default(), root_mode: 0o755 };
    for i in &s.fs {
        match i {
            Init::Dir(p, m) => {
                f.n.insert(p.as_bytes().to_vec(), (M::Dir, *m));
            }
            Init::File(p, m, c) => {
                f.n.insert(p.clone(), (M::File(std::rc::Rc::new(c.clone())), *m));
            }
            Init::Link(p, t) => {
                f.n.insert(p.as_bytes().to_vec(), (M::Link(t.as_bytes().to_vec()), 0o777));
            }
            Init::Dev(p, _) => {
                f.n.insert(p.as_bytes().to_vec(), (M::Dev, 0o666));
            }
        }
    }
    f
}
/// a random tree below /home/u plus a witness directory /home/keep that nothing may touch
pub fn tree(r: &mut Rng, s: &mut Scen, perms: bool, size: usize) {
    for d in ["/home/keep", "/home/keep/in", "/mod", "/data"] {
        s.dir(d);
    }
    s.file("/home/keep/k.txt", b"keep me\n");
    s.file("/home/keep/in/k2", b"me too");
    let mut dirs = vec!["/home/u".to_string()];
    let mut all: Vec<String> = vec![];
    let n = 3 + r.n(size);
    for _ in 0..n {
        let d = r.pick(&dirs).clone();
        let nm = if r.chance(3, 4) { NAMES[r.n(8)] } else { *r.pick(NAMES) };
        let p = format!("{}/{}", d, nm);
        if all.contains(&p) {
            continue;
        }
        match r.n(10) {
            0..=3 => {
                s.fs.push(Init::Dir(p.clone(), if perms && r.chance(1, 4) { *r.pick(&[0o000, 0o555, 0o444, 0o311, 0o600]) } else { 0o755 }));
                if p.matches('/').count() < 6 {
                    dirs.push(p.clone());
                }
            }
            4..=7 => {
                let c = content(r);
                s.fs.push(Init::File(p.clone().into_bytes(), if perms && r.chance(1, 3) { *r.pick(&[0o000, 0o444, 0o200]) } else if r.chance(1, 3) { *r.pick(&[0o755, 0o600, 0o640, 0o664, 0o777]) } else { 0o644 }, c));
            }
            _ => {
                let t = match r.n(7) {
                    0 => "/home/keep".to_string(),
                    1 => "/home/keep/k.txt".to_string(),
                    2 => "nowhere".to_string(),
                    3 => "/no/such/place".to_string(),
                    4 if !all.is_empty() => r.pick(&all).clone(),
                    5 if !all.is_empty() => r.pick(&all).rsplit('/').next().unwrap().to_string(),
                    _ => "k.txt".to_string(),
                };
                s.link(&p, &t);
            }
        }
        all.push(p);
    }
}
fn tree_model(f: &Fs, at: &std::path::Path, depth: Option<i64>) -> Val {
    tree_below(f, at, depth, &mut f.at(b"/", at.to_string_lossy().as_bytes()).into_iter().collect())
}
/// `above` are the directories on the way here: a link back to one of them is shown as a path
fn tree_below(f: &Fs, at: &std::path::Path, depth: Option<i64>, above: &mut Vec<Vec<u8>>) -> Val {
    let mut m = std::collections::BTreeMap::new();
    let s = |p: &std::path::Path| Val::Str(p.to_string_lossy().to_string());
    m.insert(".".to_string(), s(at));
    m.insert("..".to_string(), s(at.parent().unwrap_or(at)));
    if depth.map_or(true, |d| d > 0) {
        if let Some(q) = f.at(b"/", at.to_string_lossy().as_bytes()) {
            for k in f.kids(&q) {
                let nm = &k[k.iter().rposition(|&c| c == b'/').unwrap() + 1..];
                let Ok(nm) = std::str::from_utf8(nm) else { continue };
                let p = at.join(nm);
                let v = match f.at(b"/", &k) {
                    Some(q) if f.is_dir(b"/", &k) && !above.contains(&q) => {
                        above.push(q);
                        let v = tree_below(f, &p, depth.map(|d| d - 1), above);
                        above.pop();
                        v
                    }
                    _ => s(&p),
                };
                m.insert(nm.to_string(), v);
            }
        }
    }
    Val::Map(m)
}
impl Gen {
    fn node(&mut self, want: u8) -> Option<String> {
        // 0 any, 1 file, 2 dir, 3 link, 4 file or link to file
        let home: Vec<Vec<u8>> = self
            .f
            .n
            .iter()
            .filter(|(p, (m, _))| {
                under(p, b"/home/u")
                    && p.as_slice() != b"/home/u"
                    && match want {
                        1 => matches!(m, M::File(_)),
                        2 => *m == M::Dir,
                        3 => matches!(m, M::Link(_)),
                        _ => true,
                    }
            })
            .map(|x| x.0.clone())
            .collect();
        if home.is_empty() {
            return None;
        }
        String::from_utf8(self.r.pick(&home).clone()).ok()
    }
    fn spell(&mut self, abs: &str) -> String {
        let cwd = lossy(&self.cwd);
        let rel = abs.strip_prefix(&format!("{}/", cwd)).map(|x| x.to_string());
        let is_dir = self.f.is_dir(b"/", abs.as_bytes()) && !matches!(self.f.get(abs.as_bytes()), Some(M::Link(_)));
        let mut p = match self.r.n(10) {
            0..=5 => rel.unwrap_or(abs.into()),
            6 => abs.to_string(),
            7 => format!("./{}", rel.unwrap_or(abs.trim_start_matches('/').into())),
            8 => {
                let par = lossy(&parent_of(&self.cwd));
                let base = cwd.rsplit('/').next().unwrap_or("").to_string();
                match (abs.strip_prefix(&format!("{}/", par)), base.is_empty()) {
                    (Some(x), false) => format!("../{}", x),
                    _ => abs.to_string(),
                }
            }
            _ => abs.replace('/', "//"),
        };
        if p.starts_with("./") && !abs.starts_with(&cwd) {
            p = abs.to_string();
        }
        if is_dir && self.r.chance(1, 10) {
            p.push('/');
        }
        p
    }
    pub fn existing(&mut self, want: u8) -> String {
        match self.node(want) {
            Some(p) => self.spell(&p),
            None => self.fresh(),
        }
    }
    fn lines(&mut self) -> i64 {
        if self.r.chance(1, 5) {
            *self.r.pick(&[-2, -1000, 1000, 1 << 31, (1 << 32) + 1, 1 << 40, i64::MAX])
        } else {
            self.r.range(-1, 40)
        }
    }
    /// a path that goes on from a link to a directory
    fn around_link(&mut self) -> String {
        let links: Vec<String> = self.f.n.iter().filter(|(p, (m, _))| matches!(m, M::Link(_)) && under(p, b"/home/u") && self.f.is_dir(b"/", p)).filter_map(|x| String::from_utf8(x.0.clone()).ok()).collect();
        if links.is_empty() {
            return self.existing(2);
        }
        let l = self.r.pick(&links).clone();
        let more = *self.r.pick(&["/..", "/../..", "/.", "", "/../."]);
        format!("{}{}", self.spell(&l), more)
    }
    pub fn fresh(&mut self) -> String {
        let d = if self.r.chance(1, 2) { None } else { self.node(2) };
        let d = d.unwrap_or(lossy(&self.cwd));
        let n = if self.r.chance(3, 4) { format!("n{}", self.r.n(20)) } else { self.r.pick(NAMES).to_string() };
        let abs = format!("{}/{}", d.trim_end_matches('/'), n);
        self.spell(&abs)
    }
    pub fn odd(&mut self) -> String {
        match self.r.n(10) {
            0 => "no/such/parent".into(),
            1 => "".into(),
            2 => ".".into(),
            3 => "..".into(),
            4 => "n".repeat(256),
            5 => "/".into(),
            6 => format!("{}/under", self.existing(1).trim_end_matches('/')),
            7 => self.existing(3),
            8 if self.allow_weird => "nul\0byte".into(),
            9 => "p/".repeat(2100),
            _ => "/home/keep/k.txt/x".into(),
        }
    }
    pub fn path(&mut self, new: usize, old: usize, want: u8) -> String {
        let x = self.r.n(new + old + 1);
        if x < new {
            self.fresh()
        } else if x < new + old {
            self.existing(want)
        } else if self.r.chance(1, 2) {
            self.odd()
        } else {
            self.existing(0)
        }
    }
    fn value(&mut self, bins: &[(String, Vec<u8>)]) -> V {
        match self.r.n(10) {
            0..=4 => V::Str(textv(&mut self.r)),
            5 | 6 => {
                let b = self.r.pick(bins).clone();
                V::Bytes(b.0, b.1)
            }
            _ => V::Expr(
                self.r
                    .pick(&["12", "(0 - 7)", "3.25", "True", "None", "[1, 2, 3]", "[\"a\", [\"b\", 2]]", "{a = 1, b = \"x\"}", "[]", "{}", "(\"x\" + \"y\")", "((n -> (n + 1)) 41)", "1.0", "9223372036854775807", "[\"\u{e9}\u{1F600}\", \"\"]"])
                    .to_string(),
            ),
        }
    }
    /// does the path, or the tree it names, avoid what the model leaves open
    fn plain(&self, p: &str) -> bool {
        // a final "." or "..", or a trailing slash on a link, means something different to every call
        let t = p.trim_end_matches('/');
        if t.ends_with("/.") || t.ends_with("/..") || t == "." || t == ".." || t.is_empty() {
            return false;
        }
        if p.ends_with('/') {
            let full = joinp(&self.cwd, t.as_bytes());
            if let Ok(r) = self.f.resolve(b"/", &full, false) {
                if r.exists && self.f.get(&r.path) != Some(&M::Dir) {
                    return false;
                }
            }
        }
        true
    }
    pub fn op(&mut self, prop: &str, bins: &[(String, Vec<u8>)]) -> Op {
        for _ in 0..30 {
            let o = self.op1(prop, bins);
            let ok = match &o {
                Op::Cp(a, b) => {
                    self.plain(a) && self.plain(b) && (!same_path_components(&self.cwd, a, b) || self.r.chance(1, 3))
                }
                Op::Mv(a, b) => {
                    // never move or remove the directory the shell stands in
                    let full = joinp(&self.cwd, a.as_bytes());
                    let anc = self.f.resolve(b"/", &full, false).map_or(false, |x| under(&self.cwd, &x.path));
                    self.plain(a) && self.plain(b) && !anc && (!same_path_components(&self.cwd, a, b) || self.r.chance(1, 3))
                }
                Op::Rm(p) | Op::Rmdir(p) => {
                    let full = joinp(&self.cwd, p.as_bytes());
                    let anc = self.f.resolve(b"/", &full, false).map_or(false, |x| under(&self.cwd, &x.path) || under(b"/home/u", &x.path));
                    let depth_ok = p.len() < 1000;
                    self.plain(p) && !anc && depth_ok
                }
                _ => true,
            };
            if ok {
                return o;
            }
        }
        Op::Exists(".".into())
    }
    fn op1(&mut self, prop: &str, bins: &[(String, Vec<u8>)]) -> Op {
        match prop {
            "C01" => Op::Write(self.path(3, 4, 1), self.value(bins), self.r.n(2) as u8),
            "C02" => Op::Append(self.path(1, 6, 1), self.value(bins), self.r.n(2) as u8),
            "C03" => {
                let p = self.path(0, 8, 1);
                match self.r.n(4) {
                    0 => Op::Head(p, self.lines()),
                    1 => Op::Tail(p, self.lines()),
                    x => Op::Read(p, (x - 2) as u8),
                }
            }
            "C04" => {
                let a = if self.r.chance(1, 2) { self.existing(2) } else { self.path(0, 9, 0) };
                let a = if self.r.chance(1, 40) { self.fresh() } else { a };
                // a directory with a link in it
                let a = match if self.r.chance(1, 5) { self.node(3) } else { None } {
                    Some(l) if self.r.chance(9, 10) => self.spell(&lossy(&parent_of(l.as_bytes()))),
                    _ => a,
                };
                let b = if self.r.chance(1, 14) { if a.starts_with('/') || self.r.chance(1, 2) { a.clone() } else { format!("./{}", a) } } else if self.r.chance(1, 12) { format!("{}/{}", a.trim_end_matches('/'), "sub") } else { self.path(7, 3, 0) };
                Op::Cp(a, b)
            }
            "C05" => {
                let a = self.path(0, 9, 0);
                let a = if self.r.chance(1, 40) { self.fresh() } else { a };
                let b = if self.r.chance(1, 14) { a.clone() } else if self.r.chance(1, 14) { format!("{}/{}", a.trim_end_matches('/'), "sub") } else { self.path(7, 3, 0) };
                Op::Mv(a, b)
            }
            "C06" => {
                if self.r.chance(1, 5) {
                    Op::Rmdir(self.path(1, 8, 2))
                } else {
                    let w = *self.r.pick(&[0, 0, 2, 2, 3]);
                    Op::Rm(self.path(1, 9, w))
                }
            }
            "C07" => {
                let mut p = self.path(5, 3, 0);
                for _ in 0..self.r.n(4) {
                    p = format!("{}/{}", p.trim_end_matches('/'), if self.r.chance(1, 6) { ".." } else { *self.r.pick(&NAMES[..10]) });
                }
                Op::Mkdir(p)
            }
            "C08" if self.r.chance(1, 7) => {
                let p = if self.r.chance(1, 4) { None } else { Some(self.path(1, 9, 0)) };
                let n = if p.is_none() || self.r.chance(1, 2) { Some(*self.r.pick(&[0, 1, 1, 2, 2, 3, -1])) } else { None };
                Op::Tree(p, n)
            }
            "C08" => match self.r.n(9) {
                0 | 1 | 2 => Op::Ls(if self.r.chance(1, 8) { "".into() } else if self.r.chance(1, 6) { ".".into() } else { self.path(0, 8, 2) }),
                3 => Op::Exists(self.path(2, 6, 0)),
                4 => Op::IsDir(self.path(1, 6, 0)),
                5 => Op::IsFile(self.path(1, 6, 0)),
                6 if self.r.chance(1, 4) => Op::Canon(self.around_link()),
                6 => Op::Canon(self.path(1, 7, 0)),
                _ => {
                    let base = if self.r.chance(1, 2) { String::new() } else { format!("{}/", self.existing(2).trim_end_matches('/')) };
                    let base: String = base.chars().flat_map(|c| if matches!(c, '*' | '?' | '[' | ']') { vec!['[', c, ']'] } else { vec![c] }).collect();
                    let p = *self.r.pick(&["*", "*.txt", "?", "[a-c]*", "*/*", "d?", "a*", "nope*", "x.txt", "[!a]*", "*/x.txt", "..", "../*", "[", "a[", "***", "*.b.*", "é*", "./*"]);
                    Op::Glob(format!("{}{}", base, p))
                }
            },
            "C09" => match self.r.n(12) {
                0..=4 => {
                    let k = if self.r.chance(1, 2) { self.r.n(3) as u8 / 2 } else { self.r.n(14) as u8 };
                    let p = match self.r.n(8) {
                        0 => "..".into(),
                        1 => "/".into(),
                        2 => "/home/u".into(),
                        3 => self.path(1, 3, 0),
                        4 => self.existing(3),
                        5 => self.around_link(),
                        _ => self.existing(2),
                    };
                    Op::Cd(p, k)
                }
                5 | 6 => Op::Pwd(self.r.n(4) as u8),
                7 | 8 => Op::Launch(self.r.pick(&["pa 0", "pb 1", "\"pa\" 1", "pa CWD"]).to_string()),
                9 => Op::PipeLaunch("pc".into(), self.r.pick(&["pd", "pd | pd"]).to_string().split(" | ").next().unwrap().into()),
                _ => {
                    let q = *self.r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]);
                    self.op1(q, bins)
                }
            },
            _ => {
                let q = *self.r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"]);
                self.op1(q, bins)
            }
        }
    }
}

pub fn make(prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    let perms = r.chance(1, 5);
    let tsize = if thorough { 24 } else { 14 };
    tree(&mut r, &mut s, perms, tsize);
    let bins: Vec<(String, Vec<u8>)> = (0..3)
        .map(|i| {
            let mut b: Vec<u8> = (0..1 + r.n(if i == 2 { 20000 } else { 40 })).map(|_| r.next() as u8).collect();
            b[0] = 0xff;
            (format!("/data/b{}", i), b)
        })
        .collect();
    for (p, b) in &bins {
        s.file(p, b);
    }
    if matches!(prop, "C04" | "C08" | "C26") && r.chance(1, 5) {
        // links back to where they are, or to what is above
        let ds: Vec<String> = s.fs.iter().filter_map(|x| if let Init::Dir(p, 0o755) = x { Some(p.clone()) } else { None }).filter(|p| p.starts_with("/home/u")).collect();
        for i in 0..1 + r.n(4) {
            let d = r.pick(&ds).clone();
            let t = if r.chance(1, 2) { r.pick(&[".", "..", "../.."]).to_string() } else { r.pick(&ds).clone() };
            s.link(&format!("{}/l{}", d, i), &t);
        }
    }
    crate::weird::progs(&mut s);
    for p in ["pa", "pb", "pc", "pd"] {
        s.prog(p, match p { "pc" => "out 6162", "pd" => "cat", _ => "exit 0" });
    }
    if r.chance(1, 3) {
        s.knob("dtunknown", 1);
    }
    if r.chance(1, 4) {
        s.knob("copyrange", 0);
    }
    if r.chance(1, 3) {
        s.knob("chunk", 1);
    }
    if prop == "C26" || prop == "C08" && r.chance(1, 5) || prop == "C06" && r.chance(1, 8) {
        // a name that is not text
        s.fs.push(Init::File(b"/home/u/bad\xff\xfename".to_vec(), 0o644, b"q".to_vec()));
        if prop == "C26" || r.chance(1, 2) {
            s.fs.push(Init::Dir("/home/u/odd".into(), 0o755));
            s.fs.push(Init::File(b"/home/u/odd/\xc3".to_vec(), 0o644, b"q".to_vec()));
        }
    }
    let oddstart = prop == "C26" && r.chance(1, 6);
    if oddstart {
        // started for a user, or in a directory, whose name is not text or does not exist
        let d: &[u8] = *r.pick(&[&b"/home/\xe9t\xe9"[..], b"/home/u/\xff", b"/home/u/caf\xc3"]);
        let mut p = d.to_vec();
        p.extend(b"/.dune-prelude");
        if r.chance(2, 3) {
            s.fs.push(Init::File(p, 0o644, b"let odd = 1".to_vec()));
        }
        let gone: &[u8] = *r.pick(&[d, d, b"/nowhere", b"home/u"]);
        match r.n(3) {
            0 => s.home = Some(gone.to_vec()),
            1 => s.cwd = Some(d.to_vec()),
            _ => {
                s.home = Some(gone.to_vec());
                s.cwd = Some(d.to_vec());
            }
        }
    }
    if prop == "C26" || prop == "C27" {
        // nobody is at the keyboard
        if r.chance(1, 2) {
            s.fs.retain(|x| !matches!(x, Init::Dev(p, _) if p == "/dev/tty"));
        } else {
            s.hup = Some(0);
        }
    }
    // later duplicates of a name would replace it in the simulator as well
    let f = empty_trace_snap(&s);
    let mut g = Gen { r: r.fork(), f, cwd: b"/home/u".to_vec(), allow_weird: true };
    let mut c = FsCase { prop: prop.into(), base: s, steps: vec![], actors: false, shared_dirs: vec![], racy: None, perms, killable: matches!(prop, "C04" | "C05" | "C06" | "C27" | "C01" | "C02") };
    let n = if thorough { 6 + g.r.n(18) } else { 4 + g.r.n(9) };
    for _ in 0..n {
        let own = g.r.chance(2, 3);
        let op = if prop == "C26" && g.r.chance(1, 3) {
            crate::weird::op(&mut g)
        } else if own && prop != "C26" && prop != "C27" {
            g.op(prop, &bins)
        } else {
            // move around and disturb
            if g.r.chance(1, 4) { g.op("C09", &bins) } else { g.op("any", &bins) }
        };
        // keep the generator's picture in step with what the operation should do
        match c.predict(&op, &g.f, &g.cwd, Some("")) {
            Pred::Ok(x) | Pred::Maybe(x) => {
                if let Op::Cd(p, 0 | 1 | 6 | 8..=13) = &op {
                    if let Some(q) = g.f.at(b"/", &joinp(&g.cwd, p.as_bytes())) {
                        g.cwd = q;
                    }
                }
                g.f = x;
            }
            _ => (),
        }
        let ctx = g.r.n(12) as u8;
        c.steps.push(Step { op, ctx });
    }
    // other processes at work
    if prop == "C02" && g.r.chance(1, 4) {
        c.actors = true;
        let p = "/home/u/shared.log";
        c.base.file(p, b"start\n");
        let mut a = String::new();
        for i in 0..3 + g.r.n(5) {
            let w = match g.r.n(3) {
                0 => format!("sleep {}", g.r.n(3)),
                1 => format!("when {}", p),
                _ => format!("when {} yield", p),
            };
            let _ = write!(a, "{} app {} {} ", w, p, hex(format!("<zz{}>", i).as_bytes()));
        }
        c.base.actors.push(a);
        c.base.knob("stick", *g.r.pick(&[100, 0]));
        for _ in 0..3 {
            let v = g.value(&bins);
            let at = g.r.n(c.steps.len() + 1);
            c.steps.insert(at, Step { op: Op::Append(p.into(), v, g.r.n(2) as u8), ctx: 0 });
        }
        c.steps.retain(|s| !matches!(s.op, Op::Glob(_) | Op::Ls(_) | Op::Tree(..)) && !matches!(&s.op, Op::Cp(..) | Op::Mv(..) | Op::Rm(_) | Op::Rmdir(_)));
    } else if prop == "C07" && g.r.chance(1, 3) {
        c.actors = true;
        let mut a = String::new();
        let mut p = "/home/u".to_string();
        for nm in ["m1", "m2", "m3"].iter().take(1 + g.r.n(3)) {
            p = format!("{}/{}", p, nm);
            c.shared_dirs.push(p.clone().into_bytes());
            let _ = write!(a, "mkdir {} yield ", p);
        }
        // started by the first mkdir or anywhere near it
        c.base.actors.push(format!("sleep {} {}", g.r.n(2), a));
        c.base.knob("stick", 0);
        let tail = if g.r.chance(1, 2) { "" } else { "/m4/m5" };
        c.steps = vec![Step { op: Op::Mkdir(format!("{}{}", p, tail)), ctx: 0 }, Step { op: Op::Mkdir(p.clone()), ctx: 0 }];
    } else if prop == "C06" && g.r.chance(1, 4) {
        c.actors = true;
        c.base.dir("/home/u/tr");
        for i in 0..1 + g.r.n(3) {
            c.base.dir(&format!("/home/u/tr/s{}", i));
            for k in 0..g.r.n(3) {
                c.base.file(&format!("/home/u/tr/s{}/f{}", i, k), b"1");
            }
        }
        c.racy = Some(b"/home/u/tr".to_vec());
        c.base.actors.push("sleep 1 mv /home/u/tr/s0 /home/u/tr/zzs ln /home/keep /home/u/tr/s0 yield".to_string());
        c.base.actors.push(format!("sleep {} mk /home/u/tr/s0/zznew 31", g.r.n(2)));
        c.base.knob("stick", 0);
        c.steps = vec![Step { op: Op::Rm("tr".into()), ctx: 0 }, Step { op: Op::Exists("/home/keep/k.txt".into()), ctx: 0 }];
    } else if prop == "C08" && g.r.chance(1, 5) {
        c.actors = true;
        let mut a = String::new();
        for i in 0..6 {
            let _ = write!(a, "mk /home/u/zz{} 31 yield rm /home/u/zz{} ", i, i / 2);
        }
        c.base.actors.push(a);
        c.base.knob("stick", 100);
    }
    Box::new(c)
}
