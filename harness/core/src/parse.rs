//! C01-C04, C12: the style-string parser.
use crate::acct::{debug, dump, M};
use crate::gen::*;
use crate::rt;
use stylist_core::ast::*;

/// `ctx.0 + k arbitrary bytes + ctx.1`, if that is UTF-8
fn arb(k: usize, pre: &str, post: &str) -> Option<String> {
    let b = rt::bytes(k);
    match std::str::from_utf8(&b) {
        Ok(s) => Some(format!("{pre}{s}{post}")),
        Err(_) => {
            rt::cover("not utf8");
            None
        }
    }
}
fn alpha(k: usize, set: &[u8], pre: &str, post: &str) -> String {
    format!("{pre}{}{post}", of(set, k))
}
const CSS: &[u8] = b"ab:;{}/* \"\\@&,.";

fn account(s: &str) {
    match s.parse::<Sheet>() {
        Ok(m) => {
            rt::cover("accepted");
            rt::emit(&dump(&m));
            check!(M::sheet(s, &m), "C01 accepted text not accounted for", "{s:?} -> {}", debug(&m));
        }
        Err(_) => rt::cover("rejected"),
    }
}
fn reparse(s: &str) {
    let m = match s.parse::<Sheet>() {
        Ok(m) => m,
        Err(_) => {
            rt::cover("rejected");
            return;
        }
    };
    rt::cover("accepted");
    let scoped = m.to_style_str(Some("K"));
    let global = m.to_style_str(None);
    rt::emit(scoped.as_bytes());
    for r in [&scoped, &global] {
        match r.parse::<Sheet>() {
            Ok(n) => {
                let again = n.to_style_str(None);
                check!(&again == r, "C03 rendering changed by re-parsing", "{s:?} -> {r:?} -> {again:?}");
            }
            Err(_) => {
                check!(false, "C03 rendered text not accepted", "{s:?} -> {r:?}");
            }
        }
    }
}
fn total(s: &str) {
    match s.parse::<Sheet>() {
        Ok(m) => {
            rt::cover("accepted");
            rt::emit(m.to_style_str(Some("K")).as_bytes());
        }
        Err(_) => rt::cover("rejected"),
    }
    let t = "a:b;".parse::<Sheet>();
    check!(
        matches!(&t, Ok(m) if m.to_style_str(None) == ":root {\n    a: b;\n}\n"),
        "C02 parser unusable after a parse",
        "after {s:?}"
    );
}
/// characters of 2 to 4 bytes
fn wide() -> String {
    let mut b = [&b"\xc2"[..], b"\xe2\x80", b"\xf0\x9f\x98"][rt::choice(3) as usize].to_vec();
    b.push(0x80 | (rt::bytes(1)[0] & 0x3f));
    String::from_utf8(b).expect("a character")
}
const CTX: [(&str, &str); 12] = [
    ("", ""),
    ("a:", ";"),
    ("a{", "}"),
    ("a", "{b:c}"),
    ("a{b:", "}"),
    ("a:\"", "\";"),
    ("@media ", "{a:b;}"),
    ("@media a{", "}"),
    ("@keyframes a{", "}"),
    ("@keyframes a{b{", "}}"),
    ("a:b;", "c:d;"),
    ("a{b:c}", "d{e:f}"),
];
/// this text gives exactly the sheet
fn exactly(v: &[N], what: &str) {
    let t = text(&mut Dev::none(), v);
    let want = sheet(v);
    match t.parse::<Sheet>() {
        Ok(m) => {
            rt::cover("accepted");
            rt::emit(&dump(&m));
            check!(m == want, what, "{t:?} -> {} expected {}", debug(&m), debug(&want));
        }
        Err(_) => check!(false, what, "{t:?} rejected"),
    }
}
/// this trivia at any place or at all of them
fn filled(t: String, w: &str) {
    let a = |k: &str| N::A(k.to_string(), "v w".to_string());
    let b = |n: &[&str], v: Vec<N>| N::B(n.iter().map(|x| x.to_string()).collect(), v);
    let r = |v: Vec<N>| N::R("@media ".into(), "(m: n)".into(), v);
    let v = match rt::fork(4) {
        0 => vec![a("j"), a("k"), b(&["p", "q r"], vec![a("k"), a("l")])],
        1 => vec![a("k"), r(vec![b(&[".p"], vec![a("k"), r(vec![a("l")]), a("m")]), a("k")]), b(&["p"], vec![])],
        2 => vec![N::K("n".into(), vec![("from, 50%".into(), vec![a("k")]), ("to".into(), vec![a("k"), a("l")])]), b(&["&"], vec![a("k")])],
        _ => vec![b(&["p"], vec![r(vec![]), r(vec![a("k")])]), r(vec![]), r(vec![r(vec![a("k"), b(&["p"], vec![a("k")])])])],
    };
    let every = rt::fork(2) == 1;
    let mut d = Dev::new(if every { 0 } else { 1 }, true, false, false);
    d.fill = Some((every, t, w.to_string()));
    let t = text(&mut d, &v);
    let want = sheet(&v);
    match t.parse::<Sheet>() {
        Ok(m) => {
            rt::emit(&dump(&m));
            check!(m == want, "C04 trivia changed the sheet", "{t:?} -> {} expected {}", debug(&m), debug(&want));
        }
        Err(_) => check!(false, "C04 trivia changed the sheet", "{t:?} rejected"),
    }
}
const TRIVIA: [&str; 37] = [
    "/* a */", "/**/", "/***/", "/****/", "/*/*/", "/*//*/", "/* * / */", "/** a **/", "/*a:b;*/", "/*}*/", "/*{*/", "/* \" */", "/*\"\"*/", "/*'*/", "/*\\*/",
    "/*\n*/", "/*\r\n*/", "/* ${x} */", "/*$*/", "/*;*/", "/*@media a{*/", "/*\u{e9}*/", "/*! a */", "/*<!-- -->*/", "/* a *//* b */", " /* a */ /* b */ ",
    "\n\n/* a */\n\n", "/* a:b; } .c { d: e } */", "/*# sourceMappingURL=x */", "/**\n * a\n */", "\t", "\r\n", "\n\n\n", "    ", "\n  \n\t", " \r", "\n/**/ \t/***/",
];
/// everything generated, printed plainly, gives exactly the expected sheet
fn shapes(budget: u32, depth: u32, devs: usize, gaps: bool, leaves: bool, opts: bool, what: &str) {
    let mut d = Dev::new(devs, gaps, leaves, opts);
    let mut b = budget;
    let v = scope(&mut d, &mut b, depth);
    let t = text(&mut d, &v);
    let want = sheet(&v);
    match t.parse::<Sheet>() {
        Ok(m) => {
            rt::cover("accepted");
            rt::emit(&dump(&m));
            check!(m == want, what, "{t:?} -> {} expected {}", debug(&m), debug(&want));
            check!(M::sheet(&t, &m), what, "accounting of {t:?} -> {}", debug(&m));
        }
        Err(_) => check!(false, what, "{t:?} rejected"),
    }
}

harnesses! {
fn c01_bytes3() { if let Some(s) = arb(3, "", "") { account(&s) } }
fn c01_alpha5() { account(&alpha(5, CSS, "", "")) }
fn c01_ctx2() {
    let c = CTX[1 + rt::choice(11) as usize];
    if let Some(s) = arb(2, c.0, c.1) { account(&s) }
}
fn c01_ctx3() {
    let c = CTX[1 + rt::choice(11) as usize];
    account(&alpha(3, CSS, c.0, c.1))
}
fn c01_spaces() {
    let c = CTX[rt::choice(12) as usize];
    account(&alpha(5, b"a \n\t", c.0, c.1))
}
fn c01_words() { exactly(&crate::vocab::words(true), "C01 sheet differs from what the text denotes") }
fn c01_many() { exactly(&crate::vocab::many(), "C01 sheet differs from what the text denotes") }
fn c01_shapes() { shapes(3, 2, 1, false, true, true, "C01 sheet differs from what the text denotes") }
fn c01_shapes4() { shapes(4, 3, 0, false, false, false, "C01 sheet differs from what the text denotes") }
fn c02_bytes3() { if let Some(s) = arb(3, "", "") { total(&s) } }
fn c02_ctx2() {
    let c = CTX[1 + rt::choice(11) as usize];
    if let Some(s) = arb(2, c.0, c.1) { total(&s) }
}
/// rejected and accepted texts of many wide characters: no position of the text is at a character's edge for all of them
fn c02_wide() {
    let c = CTX[rt::choice(12) as usize];
    let w = wide();
    let pad = ["", "x", "xx", "xxx"][rt::choice(4) as usize];
    let nl = if rt::flag() { "\n" } else { "" };
    let end = ["}", "", ";}"][rt::choice(3) as usize];
    total(&format!("{}{pad}{}{nl}{}{pad}{}{end}", c.0, w.repeat(45), w.repeat(45), c.1))
}
/// texts of one long line
fn c02_columns() {
    let n = 65533 + rt::choice(5) as usize;
    let end = of(b"}{;a", 2);
    let (a, b) = [("a:", ";"), ("", ""), ("@media ", "{"), ("/*", "*/"), ("a:\"", "\";"), ("a{", ":b;")][rt::choice(6) as usize];
    total(&format!("{a}{}{b}{end}", "x".repeat(n)))
}
/// blocks and at-rules nested to any depth, closed or not
fn c02_deep() {
    let n = match rt::choice(6) { 0 => 20000, n => 61 + n as usize };
    let inner = ["a:b;", "", "a{b:c;}", "}"][rt::choice(4) as usize];
    let (a, b, c) = [("", "@media a{", ""), ("a{", "@media a{", "}"), ("@keyframes a{b{", "@supports a{", "}}"), ("", "a{", ""), ("a:", "(", ""), ("a{b:", "\"", "}")][rt::choice(6) as usize];
    let close = if rt::flag() { "}".repeat(n) } else { String::new() };
    total(&format!("{a}{}{inner}{close}{c}", b.repeat(n)))
}
fn c03_deep() {
    let n = 60 + rt::choice(7) as usize;
    let inner = ["a:b;", "", "a{b:c;}"][rt::choice(3) as usize];
    let (a, b, c) = [("", "@media a{", ""), ("a{", "@media a{", "}"), ("@keyframes a{b{", "@supports a{", "}}"), ("@media a{b{", "@media c{", "}}")][rt::choice(4) as usize];
    reparse(&format!("{a}{}{inner}{}{c}", b.repeat(n), "}".repeat(n)))
}
fn c03_bytes3() { if let Some(s) = arb(3, "", "") { reparse(&s) } }
fn c03_ctx2() {
    let c = CTX[1 + rt::choice(11) as usize];
    if let Some(s) = arb(2, c.0, c.1) { reparse(&s) }
}
fn c03_ctx3() {
    let c = CTX[rt::choice(12) as usize];
    reparse(&alpha(3, CSS, c.0, c.1))
}
fn c03_spaces() {
    let c = CTX[rt::choice(12) as usize];
    reparse(&alpha(5, b"a \n\t", c.0, c.1))
}
fn c03_words() { reparse(&text(&mut Dev::none(), &crate::vocab::words(true))) }
fn c03_many() { reparse(&text(&mut Dev::none(), &crate::vocab::plain())) }
fn c03_shapes() {
    let mut d = Dev::new(1, false, true, true);
    let mut b = 3;
    let v = scope(&mut d, &mut b, 2);
    let t = text(&mut d, &v);
    reparse(&t)
}
fn c04_words() {
    let w = [" ", "\n", "\t\t", "\r\n\r\n", "        "][rt::fork(5) as usize];
    filled(TRIVIA[rt::fork(37) as usize].to_string(), w)
}
fn c04_many() {
    let n = [3, 8, 17, 64, 65, 129, 257, 1025][rt::fork(8) as usize];
    let k = rt::fork(9) as usize;
    let w = [" ", "\n", "\t", "\r\n"][k % 4].repeat(n);
    let t = match k {
        0 | 1 => format!("/*{}*/", ["x", "* "][k].repeat(n)),
        2 => format!("/*{}*/", "*".repeat(n)),
        3 => "/**/".repeat(n.min(257)),
        4 => format!("/*{}*/", "a {\n".repeat(n.min(257))),
        5 => "/* a */\n".repeat(n.min(257)),
        _ => w.clone(),
    };
    filled(t, &w)
}
fn c04_shapes() { shapes(3, 2, 1, true, false, true, "C04 trivia changed the sheet") }
}
