//! Engine E: sleeping, reading the clock and random choices (C21, C22), under signals, interrupted
//! calls, clock changes, late wake-ups and odd random sources.
use crate::base::*;
use crate::runner::*;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum Op {
    /// text of the duration, its meaning in ms (None: an error), context
    Sleep(String, Option<i64>, u8),
    Now,
    Int { l: i128, h: i128, n: usize },
    Choose { items: Vec<Item>, n: usize },
    Shuffle { items: Vec<Item>, n: usize },
    Ill(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
enum Item {
    I(i64),
    S(String),
    L(Vec<Item>),
    B(bool),
    N,
}
impl Item {
    fn t(&self) -> String {
        match self {
            Item::I(n) => n.to_string(),
            Item::S(s) => dstr(s),
            Item::L(v) => format!("[{}]", v.iter().map(|x| x.t()).collect::<Vec<_>>().join(", ")),
            Item::B(b) => if *b { "True".into() } else { "False".into() },
            Item::N => "None".into(),
        }
    }
    fn v(&self) -> Val {
        match self {
            Item::I(n) => Val::Int(*n),
            Item::S(s) => Val::Str(s.clone()),
            Item::L(v) => Val::List(v.iter().map(|x| x.v()).collect()),
            Item::B(b) => Val::Bool(*b),
            Item::N => Val::None,
        }
    }
}
struct ClockCase {
    prop: String,
    base: Scen,
    ops: Vec<Op>,
    clock: i64,
    tz: usize,
}
const TZS: &[&str] = &["UTC", "ABC-5:30", "XYZ8", "EST5EDT,M3.2.0,M11.1.0", "KIR-14", "NPT-5:45"];

// ---- civil time
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn nth_sunday(y: i64, m: i64, n: i64) -> i64 {
    let first = days(y, m, 1);
    let wd = (first + 4).rem_euclid(7); // 0 = Sunday
    first + (7 - wd) % 7 + 7 * (n - 1)
}
fn offset(tz: usize, t: i64) -> i64 {
    match tz {
        0 => 0,
        1 => 19800,
        2 => -28800,
        4 => 14 * 3600,
        5 => 20700,
        _ => {
            let y = civil((t - 18000).div_euclid(86400)).0;
            let a = nth_sunday(y, 3, 2) * 86400 + 2 * 3600 + 18000;
            let b = nth_sunday(y, 11, 1) * 86400 + 2 * 3600 + 14400;
            if t >= a && t < b { -14400 } else { -18000 }
        }
    }
}
type Fields = (i64, i64, i64, i64, String, String);
fn local(tz: usize, t: i64) -> Fields {
    let l = t + offset(tz, t);
    let (y, m, d) = civil(l.div_euclid(86400));
    let s = l.rem_euclid(86400);
    let (h, mi) = (s / 3600, s / 60 % 60);
    let h12 = if h % 12 == 0 { 12 } else { h % 12 };
    (y, m, d, h, format!("{}:{:02} {}", h12, mi, if h < 12 { "AM" } else { "PM" }), format!("{:02}/{:02}/{:02}", m, d, y.rem_euclid(100)))
}

impl ClockCase {
    fn expr(&self, o: &Op) -> String {
        match o {
            Op::Sleep(t, _, ctx) => match ctx {
                1 => format!("((u -> (time@sleep {})) 0)", t),
                2 => format!("{{ for vi in [1] {{ time@sleep {} }}; None }}", t),
                3 => format!("(if True {{ time@sleep {} }} else {{ 0 }})", t),
                _ => format!("(time@sleep {})", t),
            },
            Op::Now => "(time@now ())".into(),
            Op::Int { l, h, n } => {
                let w = |x: &i128| if *x == i64::MIN as i128 { "(0 - 9223372036854775807 - 1)".to_string() } else if *x < 0 { format!("(0 - {})", -x) } else { x.to_string() };
                if *n == 1 {
                    format!("(rand@int {} {})", w(l), w(h))
                } else {
                    format!("(fn@map (u -> (rand@int {} {})) (0 to {}))", w(l), w(h), n)
                }
            }
            Op::Choose { items, n } => {
                if items.len() > 30 {
                    return format!("{{ let bl = 0 to {}; fn@map (u -> (rand@choose bl)) (0 to {}) }}", items.len(), n);
                }
                let l = Item::L(items.clone()).t();
                if *n == 1 { format!("(rand@choose {})", l) } else { format!("(fn@map (u -> (rand@choose {})) (0 to {}))", l, n) }
            }
            Op::Shuffle { items, n } => {
                let l = Item::L(items.clone()).t();
                if *n == 1 {
                    format!("{{ let xs = {}; let ys = (rand@shuffle xs); [xs, ys] }}", l)
                } else {
                    format!("(fn@map (u -> (rand@shuffle {})) (0 to {}))", l, n)
                }
            }
            Op::Ill(t) => t.to_string(),
        }
    }
    fn text(&self, keep: &[bool]) -> String {
        let mut o = String::new();
        for (k, op) in self.ops.iter().enumerate() {
            if keep[k] {
                let _ = write!(o, "echo \"@@b\";\ndebug [\"@@{}\", (err@try ({}) (e -> [\"ERR\", e@code, e@message]))];\n", k, self.expr(op));
            }
        }
        o
    }
}
fn spread<T: PartialEq>(got: &[T], want: &[T]) -> Option<usize> {
    // every permitted value occurs, about as often as the others
    want.iter().position(|w| got.iter().filter(|g| *g == w).count() * 5 * want.len() < got.len())
}
fn perms(v: &[Val]) -> Vec<Vec<Val>> {
    if v.len() < 2 {
        return vec![v.to_vec()];
    }
    let mut o = vec![];
    for i in 0..v.len() {
        let mut r = v.to_vec();
        let x = r.remove(i);
        for mut p in perms(&r) {
            p.insert(0, x.clone());
            o.push(p);
        }
    }
    o
}
fn same_bag(a: &[Val], b: &[Val]) -> bool {
    let mut b = b.to_vec();
    a.iter().all(|x| b.iter().position(|y| x == y).map(|i| b.remove(i)).is_some()) && b.is_empty()
}
impl Case for ClockCase {
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn scen(&self, keep: &[bool], _m: &Mods) -> Scen {
        let mut s = self.base.clone();
        s.script(&self.text(keep));
        s
    }
    fn describe(&self, keep: &[bool]) -> String {
        format!("clock {} TZ={}\n{}", self.clock, TZS[self.tz], self.text(keep))
    }
    fn check(&self, keep: &[bool], m: &Mods, t: &Trace) -> Chk {
        if t.how != "exit" {
            let kind = if t.how == "deadlock" || t.how == "steplimit" { "hang" } else { "crash" };
            return bad(kind, format!("the shell ended ({} {}): {} {:?}", t.how, t.code, short(&t.out(3, 0)), t.blocked));
        }
        let got = marks(&t.out(2, 0));
        let at: Vec<usize> = t.evs.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Mark(i) if t.snaps[*i].why == "mark")).map(|x| x.0).collect();
        let kept: Vec<usize> = (0..self.ops.len()).filter(|k| keep[*k]).collect();
        if at.len() != 2 * kept.len() {
            return bad("incomplete", format!("{} of {} statements finished; standard error: {}", at.len() / 2, kept.len(), short(&t.out(3, 0))));
        }
        let when = |e: usize| match &t.evs[e] {
            Ev::Mark(i) => t.snaps[*i].at,
            _ => 0,
        };
        let wake = m.knobs.get("wake").or(self.base.knobs.get("wake")).copied().unwrap_or(0);
        for (i, &k) in kept.iter().enumerate() {
            let (a, b) = (at[2 * i], at[2 * i + 1]);
            let what = self.expr(&self.ops[k]);
            let Some(v) = got.get(&k) else { return bad("value", format!("{} printed no value", what)) };
            let err = v.err();
            match &self.ops[k] {
                Op::Sleep(_, ms, _) => {
                    let el = when(b) - when(a);
                    match ms {
                        None => {
                            if err.is_none() {
                                return bad("sleep-error", format!("{} did not fail", what));
                            }
                        }
                        Some(ms) => {
                            if err.is_some() || *v != Val::None {
                                return bad("sleep-error", format!("{} gave {:?}", what, v));
                            }
                            // no run lasts longer than a thousand million seconds of its own time
                            let want = *ms.max(&0).min(&900_000_000_000) * 1_000_000;
                            if el < want {
                                return bad("short-sleep", format!("{} returned after {} ns", what, el));
                            }
                            let calls = t.evs[a..b].iter().filter(|e| matches!(e, Ev::Sys { cls, .. } if *cls == C_SLEEP || *cls >= 100)).count() as i64;
                            let most = if *ms <= 0 { 5_000_000 } else { want + want / 20 + 20_000_000 + (calls + 1) * wake };
                            if el > most && *ms < 900_000_000_000 {
                                return bad("long-sleep", format!("{} returned only after {} ns", what, el));
                            }
                        }
                    }
                }
                Op::Now => {
                    let Val::Map(mp) = v else { return bad("now", format!("{} gave {:?}", what, v)) };
                    let int = |k: &str| if let Some(Val::Int(n)) = mp.get(k) { Some(*n) } else { None };
                    let st = |k: &str| match mp.get(k) {
                        Some(Val::Map(m)) => match m.get("str") {
                            Some(Val::Str(s)) => Some(s.clone()),
                            _ => None,
                        },
                        _ => None,
                    };
                    let f: Option<Fields> = (|| Some((int("year")?, int("month")?, int("day")?, int("hour")?, st("time")?, st("date")?)))();
                    let Some(f) = f else { return bad("now", format!("{} lacks fields: {:?}", what, v)) };
                    // the stretches of wall-clock time between call and return
                    let mut off = self.clock - 1_000_000_000;
                    let mut segs = vec![];
                    let mut from = None;
                    for (j, e) in t.evs.iter().enumerate() {
                        if j == a {
                            from = Some(when(a) + off);
                        }
                        if j == b {
                            segs.push((from.unwrap(), when(b) + off));
                            break;
                        }
                        if let Ev::Tty(l) = e {
                            let w: Vec<&str> = l.split(' ').collect();
                            let (n, d): (i64, i64) = (w[1].parse().unwrap_or(0), w[2].parse().unwrap_or(0));
                            if let Some(x) = from {
                                segs.push((x, n + off));
                                from = Some(n + off + d);
                            }
                            off += d;
                        }
                    }
                    let ok = segs.iter().any(|(x, y)| {
                        let (x, y) = (x.div_euclid(1_000_000_000), y.div_euclid(1_000_000_000));
                        (x..=y.min(x + 300)).any(|s| local(self.tz, s) == f)
                    });
                    if !ok {
                        return bad("now", format!("time@now gave {:?}, while the clock ran through {:?} ({:?}) in {}", f, segs, local(self.tz, segs[0].0.div_euclid(1_000_000_000)), TZS[self.tz]));
                    }
                }
                Op::Int { l, h, n } => {
                    if l >= h {
                        if err.map(|e| e.0) != Some(9) {
                            return bad("rand-empty", format!("{} gave {:?}", what, v));
                        }
                        continue;
                    }
                    let list = match v {
                        Val::List(x) if *n > 1 && err.is_none() => x.clone(),
                        x if *n == 1 => vec![x.clone()],
                        _ => vec![],
                    };
                    if list.len() != *n {
                        return bad("rand-int", format!("{} gave {:?}", what, v));
                    }
                    let mut nums = vec![];
                    for x in &list {
                        match x {
                            Val::Int(x) if (*x as i128) >= *l && (*x as i128) < *h => nums.push(*x as i128),
                            _ => return bad("rand-int", format!("{} gave {:?}", what, x)),
                        }
                    }
                    if *n > 1 {
                        let w = h - l;
                        // up to four equal parts of the range; all are hit
                        let parts = w.min(4);
                        let mut seen = vec![0; parts as usize];
                        for x in &nums {
                            seen[((x - l) * parts / w) as usize] += 1;
                        }
                        if let Some(p) = seen.iter().position(|c| (*c as i128) * 5 * parts < *n as i128 - 50) {
                            return bad("rand-spread", format!("{}: values in part {} of {} of the range occurred {} times", what, p + 1, parts, seen[p]));
                        }
                        if w <= 4 {
                            let want: Vec<i128> = (*l..*h).collect();
                            if let Some(p) = spread(&nums, &want) {
                                return bad("rand-spread", format!("{}: {} occurred too rarely", what, want[p]));
                            }
                        }
                    }
                }
                Op::Choose { items, n } => {
                    if items.is_empty() {
                        if err.map(|e| e.0) != Some(9) {
                            return bad("rand-empty", format!("{} gave {:?}", what, v));
                        }
                        continue;
                    }
                    let want: Vec<Val> = items.iter().map(|x| x.v()).collect();
                    let list = match v {
                        Val::List(x) if *n > 1 => x.clone(),
                        x => vec![x.clone()],
                    };
                    if list.len() != *n {
                        return bad("rand-choose", format!("{} gave {:?}", what, v));
                    }
                    if let Some(x) = list.iter().find(|x| !want.contains(x)) {
                        return bad("rand-choose", format!("{} gave {:?}", what, x));
                    }
                    if *n >= 40 * want.len() {
                        if let Some(p) = spread(&list, &want) {
                            return bad("rand-spread", format!("{}: {:?} occurred too rarely", what, want[p]));
                        }
                    }
                }
                Op::Shuffle { items, n } => {
                    let want: Vec<Val> = items.iter().map(|x| x.v()).collect();
                    let Val::List(list) = v else { return bad("rand-shuffle", format!("{} gave {:?}", what, v)) };
                    if *n == 1 {
                        match &list[..] {
                            [Val::List(x), Val::List(y)] if *x == want && same_bag(y, &want) => (),
                            _ => return bad("rand-shuffle", format!("{} gave {:?}", what, v)),
                        }
                        continue;
                    }
                    if list.len() != *n {
                        return bad("rand-shuffle", format!("{} gave {:?}", what, v));
                    }
                    for x in list {
                        match x {
                            Val::List(y) if same_bag(y, &want) => (),
                            _ => return bad("rand-shuffle", format!("{} gave {:?}", what, x)),
                        }
                    }
                    let want: Vec<Val> = perms(&want).into_iter().map(Val::List).collect();
                    if let Some(p) = spread(list, &want) {
                        return bad("rand-spread", format!("{}: {:?} occurred too rarely", what, want[p]));
                    }
                }
                Op::Ill(_) => {
                    if err.is_none() {
                        return bad("ill-typed", format!("{} did not fail: {:?}", what, v));
                    }
                }
            }
        }
        let e = t.out(3, 0);
        if !e.is_empty() {
            return bad("stderr", format!("nothing failed, yet standard error holds {}", short(&e)));
        }
        Ok(())
    }
    fn plan(&self, r: &mut Rng, t: &Trace, budget: usize) -> Vec<Mods> {
        let pts = points(t);
        let clk: Vec<u64> = t.evs.iter().filter_map(|e| if let Ev::Sys { seq, name, .. } = e { (name == "clock").then_some(*seq) } else { None }).collect();
        let mut v = vec![];
        while v.len() < budget {
            let mut m = if r.chance(1, 2) { soft(r) } else { Mods::default() };
            for _ in 0..1 + r.n(3) {
                match r.n(if self.prop == "C21" { 5 } else { 3 }) {
                    0 => {
                        if let Some(p) = pts.get(r.n(pts.len())) {
                            m.sigs.push((p.seq, *r.pick(&[17, 28, 18])));
                        }
                    }
                    1 => {
                        let c = if self.prop == "C21" { C_SLEEP } else { C_RAND };
                        let w: Vec<&Point> = pts.iter().filter(|p| p.cls == c).collect();
                        if !w.is_empty() {
                            let s = r.pick(&w).seq;
                            m.faults.retain(|f| f.seq != s);
                            m.faults.push(FaultSpec { seq: s, kind: if c == C_RAND && r.chance(1, 2) { FaultKind::Short(1 + r.n(7) as i64) } else { FaultKind::Errno(EINTR) } });
                        }
                    }
                    2 => {
                        m.knobs.insert("wake", *r.pick(&[1000, 1_000_000, 50_000_000]));
                    }
                    _ => {
                        // the wall clock is changed, often between two looks at it
                        let d = match r.n(6) {
                            0 => 1_000_000_000,
                            1 => 60_000_000_000,
                            2 => 3600_000_000_000,
                            3 => 86_400_000_000_000,
                            4 => 31 * 86_400_000_000_000,
                            _ => 400,
                        } * if r.chance(1, 2) { 1 } else { -1 };
                        let s = if r.chance(2, 3) && !clk.is_empty() { *r.pick(&clk) + r.n(2) as u64 } else { r.pick(&pts).seq };
                        m.jumpseq.push((s, d));
                    }
                }
            }
            if self.prop == "C22" && r.chance(1, 2) {
                m.knobs.insert("randmode", *r.pick(&[0, 1, 2, 3]));
                m.knobs.insert("norandom", *r.pick(&[0, 1]));
                m.reseed = Some(r.next() >> 1);
            }
            v.push(m);
        }
        v
    }
}
pub fn make(prop: &str, seed: u64, thorough: bool) -> Box<dyn Case> {
    let mut r = Rng::new(seed);
    let mut s = Scen::new(seed >> 3);
    s.fs.push(Init::Dev("/dev/urandom".into(), "urandom"));
    s.fs.push(Init::Dev("/dev/random".into(), "urandom"));
    let tz = r.n(TZS.len());
    s.env.push(("TZ".into(), TZS[tz].into()));
    // often just before the turn of a minute, hour, day, month, year or daylight saving time
    let y = r.range(1975, 2190);
    let base = match r.n(8) {
        0 => days(y, 1, 1) * 86400,
        1 => days(y, r.range(1, 13), 1) * 86400,
        2 => days(y, r.range(1, 13), r.range(1, 29)) * 86400,
        3 => days(y, 3, 1) * 86400,
        4 => nth_sunday(y, 3, 2) * 86400 + 7200,
        5 => nth_sunday(y, 11, 1) * 86400 + 3600,
        6 => *r.pick(&[2147483648i64, 4294967296, 1_000_000_000, 951782400, 4107542400]),
        _ => days(y, r.range(1, 13), r.range(1, 29)) * 86400 + r.range(0, 86400),
    };
    let base = if r.chance(3, 4) { base - offset(tz, base) } else { base };
    let clock = base * 1_000_000_000 - *r.pick(&[0i64, 1, 500, 40_000, 400_000, 3_000_000, 30_000_000_000, 59_999_000_000, -30_000_000_000]) ;
    s.clock = Some(clock);
    if r.chance(1, 3) {
        s.knob("wake", *r.pick(&[100_000, 5_000_000]));
    }
    s.knob("stepns", *r.pick(&[500, 2000, 200]));
    let n = if prop == "C21" { 3 + r.n(if thorough { 12 } else { 6 }) } else { 3 + r.n(if thorough { 8 } else { 4 }) };
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(if prop == "C21" {
            match r.n(9) {
                0..=3 => Op::Now,
                8 => {
                    let (t, v) = match r.n(6) {
                        0 => ("(0 - 5)".to_string(), Some(0)),
                        1 => ("0".into(), Some(0)),
                        2 => ("(0.0 - 2.5)".into(), Some(0)),
                        3 => ("\"x\"".into(), None),
                        4 => ("[1]".into(), None),
                        _ => ("(0 - 9223372036854775807)".into(), Some(0)),
                    };
                    Op::Sleep(t, v, r.n(4) as u8)
                }
                _ => {
                    let ms = match r.n(8) {
                        0 => r.range(1, 10),
                        1 => r.range(990, 1010),
                        2 => r.range(60_000, 61_000),
                        3 => 86_400_000 + r.range(0, 5),
                        4 => 4_294_967_296 + r.range(-3, 4),
                        5 => 1000 * r.range(1, 10),
                        _ => r.range(10, 3000),
                    };
                    let t = match r.n(5) {
                        0 => format!("{}.0", ms),
                        1 => format!("{}.75", ms),
                        2 => format!("({} + {})", ms / 2, ms - ms / 2),
                        _ => ms.to_string(),
                    };
                    Op::Sleep(t, Some(ms), r.n(4) as u8)
                }
            }
        } else {
            let item = |r: &mut Rng| match r.n(6) {
                0 => Item::S(r.pick(&["a", "", "two words", "é"]).to_string()),
                1 => Item::L(vec![Item::I(r.range(0, 3)), Item::S("z".into())]),
                2 => Item::B(r.chance(1, 2)),
                3 => Item::N,
                _ => Item::I(r.range(0, 20)),
            };
            match r.n(9) {
                0..=3 => {
                    let (l, h): (i128, i128) = match r.n(12) {
                        0 => (0, 1),
                        1 => (-1, 1),
                        2 => (i64::MIN as i128, i64::MAX as i128),
                        3 => (i64::MAX as i128 - 1, i64::MAX as i128),
                        4 => (i64::MIN as i128, i64::MIN as i128 + 1 + r.n(3) as i128),
                        5 => (5, 5),
                        6 => (r.range(1, 100) as i128, r.range(-100, 1) as i128),
                        7 => (0, 1 << r.range(1, 62)),
                        8 => (-(1i128 << r.range(1, 63)), r.range(0, 5) as i128 + 1),
                        _ => {
                            let a = r.range(-10, 10) as i128;
                            (a, a + r.range(1, 8) as i128)
                        }
                    };
                    let n = if l < h && r.chance(2, 3) { 240 } else { 1 };
                    Op::Int { l, h, n }
                }
                4 if r.chance(1, 3) => {
                    let len = *r.pick(&[33i64, 65, 70, 129]);
                    let n = if r.chance(1, 2) { len * 40 } else { 300 };
                    Op::Choose { items: (0..len).map(Item::I).collect(), n: n as usize }
                }
                4 | 5 => {
                    let mut v: Vec<Item> = (0..r.n(5)).map(|_| item(&mut r)).collect();
                    let n = if !v.is_empty() && r.chance(2, 3) { 240 } else { 1 };
                    if n > 1 {
                        let mut u: Vec<Item> = vec![];
                        for x in v {
                            if !u.contains(&x) {
                                u.push(x);
                            }
                        }
                        v = u;
                    }
                    Op::Choose { items: v, n }
                }
                6 | 7 => {
                    if r.chance(1, 2) {
                        Op::Shuffle { items: (0..2 + r.n(2) as i64).map(Item::I).collect(), n: 300 }
                    } else {
                        let k = *r.pick(&[0, 1, 2, 5, 40, 70, 150]);
                        Op::Shuffle { items: (0..k).map(|_| item(&mut r)).collect(), n: 1 }
                    }
                }
                _ => Op::Ill(*r.pick(&["(rand@int 1.5 2)", "(rand@choose 5)", "(rand@shuffle \"abc\")", "(rand@int 1 \"x\")", "(rand@choose None)"])),
            }
        });
    }
    if prop == "C21" && r.chance(1, 5) {
        // longer than anyone waits
        let t = *r.pick(&["9223372036854775807", "1000000000000000000000000.0", "(9223372036854775807.0 * 100000.0 * 9223372036854775807.0)", "18446744073709551616.0", "4000000000000000"]);
        ops.insert(r.n(ops.len() + 1), Op::Sleep(t.into(), Some(i64::MAX), r.n(4) as u8));
    }
    Box::new(ClockCase { prop: prop.into(), base: s, ops, clock, tz })
}
