//! A reference file system: a flat map from link-free absolute paths to nodes, with POSIX path
//! resolution, used to predict what each file operation must do.
use crate::base::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Dir,
    File(Rc<Vec<u8>>),
    Link(Vec<u8>),
    Dev,
}
#[derive(Clone, Debug, Default)]
pub struct Fs {
    pub n: BTreeMap<Vec<u8>, (M, u32)>,
    /// files below the root that cannot be named from here (kept for equality)
    pub root_mode: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    NoEnt,
    NotDir,
    Loop,
    Access,
    Long,
    Inval,
    Exist,
    IsDir,
    NotEmpty,
}
pub struct Res {
    pub parent: Vec<u8>,
    pub name: Vec<u8>,
    /// absolute link-free path (of the object, or of where it would be)
    pub path: Vec<u8>,
    pub exists: bool,
    pub trailing: bool,
}
pub fn joinp(a: &[u8], b: &[u8]) -> Vec<u8> {
    if b.first() == Some(&b'/') {
        return b.to_vec();
    }
    let mut v = a.to_vec();
    if v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend_from_slice(b);
    v
}
pub fn parent_of(p: &[u8]) -> Vec<u8> {
    match p.iter().rposition(|&c| c == b'/') {
        Some(0) | None => b"/".to_vec(),
        Some(i) => p[..i].to_vec(),
    }
}
pub fn under(p: &[u8], top: &[u8]) -> bool {
    p == top || (p.len() > top.len() && p.starts_with(top) && (p[top.len()] == b'/' || top == b"/"))
}
impl Fs {
    pub fn of(t: &Trace, s: &Snap) -> Fs {
        let mut f = Fs { n: BTreeMap::new(), root_mode: 0o755 };
        for (p, (n, m)) in &s.nodes {
            if p == b"/" {
                f.root_mode = *m;
                continue;
            }
            let k = match n {
                Node::Dir => M::Dir,
                Node::File(v) => M::File(Rc::new(t.bytes(*v).to_vec())),
                Node::Link(x) => M::Link(x.clone()),
                Node::Other => M::Dev,
            };
            f.n.insert(p.clone(), (k, *m));
        }
        f
    }
    pub fn get(&self, p: &[u8]) -> Option<&M> {
        if p == b"/" {
            return Some(&M::Dir);
        }
        self.n.get(p).map(|x| &x.0)
    }
    fn mode(&self, p: &[u8]) -> u32 {
        if p == b"/" {
            return self.root_mode;
        }
        self.n.get(p).map(|x| x.1).unwrap_or(0)
    }
    pub fn may(&self, p: &[u8], want: u32) -> bool {
        (self.mode(p) >> 6) & want == want
    }
    pub fn kids(&self, d: &[u8]) -> Vec<Vec<u8>> {
        self.n.keys().filter(|p| p.len() > d.len() && parent_of(p) == d).cloned().collect()
    }
    pub fn below(&self, d: &[u8]) -> Vec<Vec<u8>> {
        self.n.keys().filter(|p| *p != d && under(p, d)).cloned().collect()
    }
    pub fn resolve(&self, cwd: &[u8], path: &[u8], follow: bool) -> Result<Res, E> {
        let mut links = 0;
        self.walk(cwd, path, follow, &mut links)
    }
    fn walk(&self, base: &[u8], path: &[u8], follow: bool, links: &mut i32) -> Result<Res, E> {
        if path.is_empty() {
            return Err(E::NoEnt);
        }
        if path.contains(&0) {
            return Err(E::Inval);
        }
        if path.len() >= 4096 {
            return Err(E::Long);
        }
        let mut cur: Vec<u8> = if path[0] == b'/' { b"/".to_vec() } else { base.to_vec() };
        let mut exists = true;
        let mut name: Vec<u8> = b".".to_vec();
        let trailing = path.last() == Some(&b'/');
        let comps: Vec<&[u8]> = path.split(|&c| c == b'/').filter(|c| !c.is_empty()).collect();
        if self.get(&cur) != Some(&M::Dir) {
            return Err(E::NoEnt);
        }
        let n = comps.len();
        for (i, c) in comps.iter().enumerate() {
            let last = i + 1 == n;
            if c.len() > 255 {
                return Err(E::Long);
            }
            if !exists {
                return Err(E::NoEnt);
            }
            match self.get(&cur) {
                Some(M::Dir) => (),
                Some(_) => return Err(E::NotDir),
                None => return Err(E::NoEnt),
            }
            if !self.may(&cur, 1) {
                return Err(E::Access);
            }
            name = c.to_vec();
            if *c == b"." {
                continue;
            }
            if *c == b".." {
                cur = parent_of(&cur);
                continue;
            }
            let p = joinp(&cur, c);
            match self.get(&p) {
                None => {
                    if !last {
                        return Err(E::NoEnt);
                    }
                    exists = false;
                    cur = p;
                }
                Some(M::Link(t)) if !last || follow || trailing => {
                    *links += 1;
                    if *links > 40 {
                        return Err(E::Loop);
                    }
                    let t = t.clone();
                    let r = self.walk(&cur, &t, true, links)?;
                    if !r.exists && !last {
                        return Err(E::NoEnt);
                    }
                    cur = r.path;
                    name = r.name;
                    exists = r.exists;
                }
                Some(_) => cur = p,
            }
        }
        if trailing && exists && n > 0 && self.get(&cur) != Some(&M::Dir) {
            return Err(E::NotDir);
        }
        Ok(Res { parent: parent_of(&cur), name, path: cur, exists, trailing: trailing && n > 0 })
    }
    /// the object a path leads to, links followed
    pub fn at(&self, cwd: &[u8], path: &[u8]) -> Option<Vec<u8>> {
        match self.resolve(cwd, path, true) {
            Ok(r) if r.exists => Some(r.path),
            _ => None,
        }
    }
    pub fn lexists(&self, cwd: &[u8], path: &[u8]) -> bool {
        matches!(self.resolve(cwd, path, false), Ok(r) if r.exists)
    }
    pub fn is_dir(&self, cwd: &[u8], path: &[u8]) -> bool {
        self.at(cwd, path).map_or(false, |p| self.get(&p) == Some(&M::Dir))
    }
    pub fn is_file(&self, cwd: &[u8], path: &[u8]) -> bool {
        self.at(cwd, path).map_or(false, |p| matches!(self.get(&p), Some(M::File(_))))
    }
    pub fn put(&mut self, p: &[u8], c: Vec<u8>) {
        let m = self.n.get(p).map(|x| x.1).unwrap_or(0o644);
        self.n.insert(p.to_vec(), (M::File(Rc::new(c)), m));
    }
    pub fn mkdir1(&mut self, cwd: &[u8], path: &[u8]) -> Result<(), E> {
        let r = self.resolve(cwd, path, false)?;
        if r.exists {
            return Err(E::Exist);
        }
        if !self.may(&r.parent, 3) {
            return Err(E::Access);
        }
        self.n.insert(r.path, (M::Dir, 0o755));
        Ok(())
    }
    /// std::fs::create_dir_all
    pub fn mkdir_all(&mut self, cwd: &[u8], path: &[u8]) -> Result<(), E> {
        if path.is_empty() || path == b"/" {
            return Ok(());
        }
        match self.mkdir1(cwd, path) {
            Ok(()) => return Ok(()),
            Err(E::NoEnt) => (),
            Err(e) => return if self.is_dir(cwd, path) { Ok(()) } else { Err(e) },
        }
        let t: Vec<u8> = {
            let mut e = path.len();
            while e > 1 && path[e - 1] == b'/' {
                e -= 1;
            }
            path[..e].to_vec()
        };
        let Some(i) = t.iter().rposition(|&c| c == b'/') else { return Err(E::NoEnt) };
        let mut e = i;
        while e > 1 && t[e - 1] == b'/' {
            e -= 1;
        }
        let par = if i == 0 { b"/".to_vec() } else { t[..e.max(1)].to_vec() };
        if par == path {
            return Err(E::NoEnt);
        }
        self.mkdir_all(cwd, &par)?;
        match self.mkdir1(cwd, path) {
            Ok(()) => Ok(()),
            Err(e) => if self.is_dir(cwd, path) { Ok(()) } else { Err(e) },
        }
    }
    pub fn remove_tree(&mut self, p: &[u8]) {
        let v = self.below(p);
        for x in v {
            self.n.remove(&x);
        }
        self.n.remove(p);
    }
    /// whether the tree at p (links not followed) can be removed by us
    pub fn can_remove(&self, p: &[u8]) -> bool {
        if !self.may(&parent_of(p), 3) {
            return false;
        }
        if self.get(p) != Some(&M::Dir) {
            return true;
        }
        let k = self.kids(p);
        if !self.may(p, 4) {
            return false;
        }
        // an empty directory that can be listed can be removed
        k.iter().all(|x| self.can_remove(x))
    }
    /// copies the object at `src` to the not yet existing `dst`, following links as a reader does
    pub fn copy_tree(&mut self, src: &[u8], dst: &[u8]) -> Result<(), E> {
        self.copy_below(src, dst, &mut vec![])
    }
    fn copy_below(&mut self, src: &[u8], dst: &[u8], above: &mut Vec<Vec<u8>>) -> Result<(), E> {
        match self.get(src).cloned() {
            Some(M::Dir) => {
                if !self.may(src, 4) {
                    return Err(E::Access);
                }
                // links followed, this tree has no end
                if above.iter().any(|x| x == src) || under(dst, src) {
                    return Err(E::Loop);
                }
                let kids = self.kids(src);
                if self.get(dst).is_none() {
                    self.n.insert(dst.to_vec(), (M::Dir, 0o755));
                }
                if !kids.is_empty() && !self.may(src, 1) {
                    return Err(E::Access);
                }
                above.push(src.to_vec());
                for k in kids {
                    let nm = k[k.iter().rposition(|&c| c == b'/').unwrap() + 1..].to_vec();
                    let Some(real) = self.at(src, &nm) else { return Err(E::NoEnt) };
                    let d = joinp(dst, &nm);
                    self.copy_below(&real, &d, above)?;
                }
                above.pop();
                Ok(())
            }
            Some(M::File(c)) => {
                if !self.may(src, 4) {
                    return Err(E::Access);
                }
                let m = self.mode(src);
                self.n.insert(dst.to_vec(), (M::File(c), m));
                Ok(())
            }
            _ => Err(E::Inval),
        }
    }
    /// first difference in names, kinds, contents and the permissions of files
    pub fn diff(&self, want: &Fs) -> Option<String> {
        for (p, (m, bits)) in &want.n {
            match self.n.get(p) {
                None => return Some(format!("{} is missing", lossy(p))),
                Some((M::File(_), b)) if matches!(m, M::File(_)) && b & 0o777 != bits & 0o777 => return Some(format!("{} has the permissions {:o}, expected {:o}", lossy(p), b & 0o777, bits & 0o777)),
                Some((x, _)) if x != m => return Some(format!("{} is {}, expected {}", lossy(p), show(x), show(m))),
                _ => (),
            }
        }
        for (p, (m, _)) in &self.n {
            if !want.n.contains_key(p) {
                return Some(format!("unexpected {} ({})", lossy(p), show(m)));
            }
        }
        None
    }
    pub fn hash(&self) -> u64 {
        let mut h = 17u64;
        for (p, (m, _)) in &self.n {
            h = h.wrapping_mul(31).wrapping_add(hash64(p));
            h = h.wrapping_mul(31).wrapping_add(match m {
                M::Dir => 1,
                M::File(c) => hash64(c),
                M::Link(t) => hash64(t) ^ 5,
                M::Dev => 3,
            });
        }
        h
    }
}
pub fn show(m: &M) -> String {
    match m {
        M::Dir => "a directory".into(),
        M::File(c) => format!("a file with {}", short(c)),
        M::Link(t) => format!("a link to {}", lossy(t)),
        M::Dev => "a device".into(),
    }
}
