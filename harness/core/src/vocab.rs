//! Stylesheets in the words of real ones, and stylesheets of many parts.
use crate::gen::*;
use crate::rt;

pub const KEYS: [&str; 14] = [
    "color", "Color", "content", "--x", "--Main-Color", "-webkit-mask", "_zoom", "font", "src", "filter", "d", "animation-name", "grid-template-areas",
    "all",
];
pub const VALUES: [&str; 64] = [
    "red", "RED", "#fff", "1px", "-1.5e3px", "50%", ".5em", "+2", "1px solid red", "inherit", "!important", "red !important", "red!important",
    "red  ! important", "\"\"", "\"x\"", "\"\\\"\"", "\"\\\\\"", "\"a;b\"", "\"{}\"", "\"/*\"", "\"*/\"", "\"//\"", "'x'", "''", "url(a.png)",
    "url(\"a;b.png\")", "url(http://a/b)", "url(//a)", "calc(1px + 2px)", "calc( 100% - (1px*2) )", "var(--x)", "var(--x,)", "1/2", "1 / 2", "a,b",
    "a , b", "\"a\" \"b\"", "\"a\"\"b\"", "\"a b\" / 1fr", "rgb(0 0 0 / 50%)", "attr(x) \"b\"", "&", ":root", ".a", "--x", "U+26", "\\65 x", "\\\\",
    "@x", "#", "progid:DX.Y(a=1)", "none", "0", "1.", "\u{e9}", "[a] 1fr [b]", "a:b", "\"\\a\"", "\"\u{e9}\"", "\"<!--\"", "-->", "\"$\"",
    "a(b(c)) d(e)",
];
pub const SELECTORS: [&str; 66] = [
    "a", "A", "*", ".a", "#b", ".a.b", "a b", "a  b", "a>b", "a > b", "a+b", "a~b", "&", "&&", "& &", "&:hover", "&::before", "&.a", "&a", ".a &",
    ".a:not(&)", "&[x]", "&-b", "&>a", "& + &", ":hover", "::before", ":root", ":root &", ":root.a", ":root:hover", ":root>a", "a:root", ":roots",
    "::root", ":not(:root)", ":root:root", ":is(.a)", ":where(&)", ":ROOT", "[x]", "[x=\"y\"]", "[x='y']", "[x=\"a b\"]", "[x=\"]\"]", "[x=\"\\\"\"]",
    "[x=\"/*\"]", "[x^=y]", "|a", "*|*", "s|a", ".\\31", ".\u{e9}", ".a\\:b", "a:nth-child(2n + 1)", "a:nth-child(-n+3 of .b)", "from", "50%", "html",
    ">a", "> a", "~ a", ".K", ".-a", ":host(.a)", "::part(b):hover",
];
pub const TAGS: [&str; 3] = ["@media ", "@supports ", "@container "];
pub const CONDS: [&str; 26] = [
    "print", "PRINT", "(a)", "(min-width: 1px)", "(min-width:1px) and (max-width:2px)", "not all and (a)", "only screen", "screen, print", "screen,print",
    "(width >= 1px)", "(1px<=width<2px)", "n (width > 1px)", "style(--a: b)", "not (display: grid)", "(a:b) or (c:d)", "(a)or(b)", "selector(a > b)",
    "selector(:root)", "selector(&)", "not(a)", "(a  b)", "(aspect-ratio: 16/9)", "-webkit-x", "(-webkit-a:.5)", "\u{e9}", "(a: calc(1px + 2px))",
];
pub const NAMES: [&str; 8] = ["fade", "Fade", "-x", "--x", "_y", "from", "\u{e9}", "f-i_2"];
pub const FRAMES: [&str; 7] = ["from", "to", "FROM", "0%", "12.5%", "0%, 50%", "from,to"];

fn one(w: &[&str]) -> String {
    w[rt::fork(w.len() as u32) as usize].to_string()
}
/// at one place any words (`pairs`: at two neighbouring ones), elsewhere plain ones
pub fn words(pairs: bool) -> Vec<N> {
    let site = rt::fork(10);
    let (mut kv, mut sel, mut sel2) = (vec![("a".to_string(), "b".to_string()); 4], "p".to_string(), vec![]);
    let (mut tag, mut cond, mut name, mut frame) = ("@media ", "m".to_string(), "k".to_string(), "from".to_string());
    match site {
        0..=3 if pairs => kv[site as usize] = (one(&KEYS), one(&VALUES)),
        0..=3 if rt::fork(2) == 0 => kv[site as usize].0 = one(&KEYS),
        0..=3 => kv[site as usize].1 = one(&VALUES),
        5 if !pairs => sel2 = vec!["p".to_string(), one(&SELECTORS)],
        4 => sel = one(&SELECTORS),
        5 => sel2 = vec![one(&SELECTORS), one(&SELECTORS)],
        6 | 7 => {
            tag = TAGS[rt::fork(3) as usize];
            cond = one(&CONDS);
        }
        8 => name = one(&NAMES),
        _ => frame = one(&FRAMES),
    }
    let mut i = kv.into_iter().map(|(k, v)| N::A(k, v));
    let mut a = || i.next().unwrap();
    if sel2.is_empty() {
        sel2.push(sel);
    }
    match site {
        8 | 9 => vec![a(), N::K(name, vec![(frame, vec![a(), a()])])],
        _ if rt::flag() => vec![a(), N::B(sel2, vec![a(), N::R(tag, cond, vec![a()]), a()])],
        _ => vec![N::R(tag, cond, vec![a(), N::B(sel2, vec![a(), a()])]), a()],
    }
}

const COUNTS: [u32; 33] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257,
];
const LENGTHS: [u32; 3] = [511, 512, 1025];
/// a number of parts, or a length
pub fn count(text: bool) -> u32 {
    match rt::fork(COUNTS.len() as u32 + if text { 3 } else { 0 }) as usize {
        i if i < COUNTS.len() => COUNTS[i],
        i => LENGTHS[i - COUNTS.len()],
    }
}
pub const KINDS: u32 = 18;
pub fn plain() -> Vec<N> {
    let kind = rt::fork(KINDS);
    part(kind, count(kind > 10), None)
}
pub fn many() -> Vec<N> {
    let kind = rt::fork(KINDS);
    let n = count(kind > 10);
    part(kind, n, Some([0, n / 2, n - 1][rt::fork(3) as usize]))
}
/// one kind of part any number of times, one of them with a symbolic character, or one text of any length
pub fn part(kind: u32, n: u32, odd: Option<u32>) -> Vec<N> {
    let a = |i: u32| N::A(format!("k{i}"), if odd == Some(i) { of(IDENT0, 1) } else { format!("v{i}") });
    let r = |i: u32, v: Vec<N>| N::R("@media ", format!("m{i}"), v);
    let b = |i: u32, v: Vec<N>| N::B(vec![format!("p{i}")], v);
    let all = |f: &dyn Fn(u32) -> N| (0..n).map(f).collect::<Vec<N>>();
    let text = |c: &str| if odd.is_some() { of(IDENT0, 1) } else { String::new() } + &"x".repeat((n as usize + 2) / 2) + c + &"y".repeat((n as usize + 1) / 2);
    match kind {
        0 => all(&a),
        1 => vec![b(0, all(&a))],
        2 => vec![N::B((0..n).map(|i| format!("p{i}")).collect(), vec![a(0)])],
        3 => all(&|i| b(i, vec![a(i)])),
        4 => all(&|i| r(i, vec![a(i)])),
        5 => vec![r(0, all(&|i| b(i, vec![a(i)])))],
        6 => vec![r(0, all(&a))],
        7 => vec![N::K("k".into(), (0..n).map(|i| (format!("{i}%"), vec![a(i)])).collect())],
        8 => vec![b(0, all(&|i| r(i, vec![a(i)])))],
        9 => vec![b(0, all(&|i| if i % 2 == 0 { a(i) } else { r(i, vec![a(i)]) }))],
        10 => all(&|i| if i % 2 == 0 { a(i) } else { b(i, vec![a(i)]) }),
        11 => vec![N::A(text("-"), "v".into())],
        12 => vec![b(0, vec![N::A("k".into(), text(" "))])],
        13 => vec![N::A("k".into(), format!("\"{}\"", text("}")))],
        14 => vec![N::B(vec![text("&")], vec![a(0)])],
        15 => vec![N::R("@supports ", text(" "), vec![a(0)])],
        16 => vec![N::K(text("_"), vec![("to".into(), vec![a(0)])])],
        _ => vec![N::A("k".into(), "\"a\" ".repeat(n as usize) + if odd.is_some() { "c" } else { "b" })],
    }
}
