//! Odd but legal expressions (C26): whatever they do, they must end in a value or an error.
use crate::base::*;
use crate::fsops::{Gen, Op};

pub fn op(g: &mut Gen) -> Op {
    let p = |g: &mut Gen| dstr(&if g.r.chance(1, 3) { g.odd() } else { g.existing(0) });
    let t = match g.r.n(52) {
        0 => "fs@tree \".\"".into(),
        1 => format!("fs@tree {}", p(g)),
        2 => "fs@tree \"/home\"".into(),
        3 => "rand@int 5 5".into(),
        4 => "rand@int 9 2".into(),
        5 => "rand@choose []".into(),
        6 => "rand@shuffle []".into(),
        7 => "rand@int (0 - 9223372036854775807) 9223372036854775807".into(),
        8 => "time@sleep 0".into(),
        9 => "time@sleep (0 - 5)".into(),
        10 => "time@sleep 3".into(),
        11 => "time@now ()".into(),
        12 => "input \"? \"".into(),
        13 => "console@keyboard@read-line ()".into(),
        14 => "console@keyboard@read-password \"pw \"".into(),
        15 => "console@cursor@position ()".into(),
        16 => "console@width ()".into(),
        17 => "console@flush ()".into(),
        18 => "{ let odd1 = \"a\\u{0}b\"; pa 1 }".into(),
        19 => "{ let odd2 = \"x=y\\nz\"; pa 2 }".into(),
        20 => "pa \"nul\\u{0}arg\"".into(),
        21 => "\"no\\u{0}prog\" 1".into(),
        22 => "nosuchprogram 1".into(),
        23 => "\"/home/u\" 1".into(),
        24 => "\"\" 1".into(),
        25 => "pc | nosuchprogram".into(),
        26 => "nosuchprogram | pd".into(),
        27 => "pc | (x -> (x + 1))".into(),
        28 => "pc | (x -> (no_such_fn x 1))".into(),
        29 => "badtext | (x -> x)".into(),
        30 => "badtext | pd".into(),
        31 => "fs@glob \"[\"".into(),
        32 => "fs@glob \"a[z-\"".into(),
        33 => format!("sys@include {}", p(g)),
        34 => format!("sys@import {}", p(g)),
        35 => "(x -> x) | pd".into(),
        36 => "dies 1".into(),
        37 => "dies | pd".into(),
        38 => "pc | dies".into(),
        39 => "bigout | pb".into(),
        40 => "{ let odd3 = [\"p\", \"q\"]; let odd4 = {a = \"\\u{0}\"}; pa odd3 odd4 }".into(),
        41 => "os@version".into(),
        42 => format!("cd {}", p(g)),
        43..=49 => {
            // values of a kind the operation has no use for, and too few or too many of them
            let v = *g.r.pick(&["\"x\"", "[1, \"x\"]", "None", "{a = 1}", "(x -> x)", "2.5", "True", "[]", "fs@read", "(bin \"ab\")", "'(1 + 2)", "\"\""]);
            let f = *g.r.pick(&[
                "exit V", "os@exit V", "time@sleep V", "rand@int V 3", "rand@int V V", "rand@int V", "rand@choose V", "rand@shuffle V", "fs@head \"x.txt\" V",
                "fs@tail \"x.txt\" V", "fs@head V 3", "fs@read V", "fs@ls V", "fs@canon V", "fs@glob V", "fs@exists? V", "cd V", "sys@include V", "sys@import V", "fs@mv V V",
                "fs@cp V \"zzn/a/b\"", "fs@read", "fs@read \"a\" \"b\"", "fs@head \"a\"", "fs@mkdir", "fs@rm", "V | pd", "pc | V", "pa V", "V 1", "log@set-level V",
                "input V", "console@title V", "console@write V V V", "console@cursor@move-to V V", "console@cursor@move-up V", "err@try V V", "for i in (V) {pa i}", "if (V) {pa 1} {2}",
                "sys@parse V", "eval V", "(V | (x -> x))", "(x -> y -> (pa x)) V V",
            ]);
            format!("{{ {}; 0 }}", f.replace('V', v))
        }
        _ => "console@keyboard@read-key ()".into(),
    };
    Op::Weird(t)
}
/// programs the expressions above use
pub fn progs(s: &mut Scen) {
    s.prog("badtext", "out 61ff62fe");
    s.prog("dies", "out 31 die 9");
    s.prog("bigout", "gen 70000 5");
}
