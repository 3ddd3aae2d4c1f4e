//! C16-C18, C20: string-literal macros.
use crate::ev::*;
use crate::gen::*;
use crate::rt;
use proc_macro2::*;
use stylist_core::ast::Sheet;

pub fn lit(text: &str) -> TokenStream {
    TokenTree::Literal(Literal::string(text)).into()
}
/// the text of a fragment with `$${` replaced by `${`; None if it has a placeholder
fn unescape(t: &str) -> Option<String> {
    let b = t.as_bytes();
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'$' && i + 1 < b.len() {
            if b[i + 1] == b'{' {
                return None;
            }
            if b[i + 1] == b'$' && i + 2 < b.len() && b[i + 2] == b'{' {
                o.extend_from_slice(b"${");
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    Some(String::from_utf8(o).unwrap())
}
fn same(text: &str) {
    same_as(text, lit(text))
}
/// as a raw string literal
fn same_raw(text: &str) {
    if text.contains('\r') {
        // rustc turns CR LF into LF and allows no other CR
        return rt::cover("not tokens");
    }
    match format!("r###\"{text}\"###").parse::<TokenStream>() {
        Ok(t) => same_as(text, t),
        Err(_) => rt::cover("not tokens"),
    }
}
fn same_as(text: &str, tokens: TokenStream) {
    if text.len() > 1 {
        match unescape(text) {
            None => return,
            _ => {}
        }
    }
    let want = match text.parse::<Sheet>() {
        Ok(s) => Some(map(&of_sheet(&s), &|x| unescape(x).unwrap())),
        Err(_) => None,
    };
    let got = expand(crate::sheet, tokens, &[]);
    match (&want, &got) {
        (None, None) => rt::cover("rejected"),
        (Some(w), Some(g)) => {
            rt::cover("accepted");
            check!(*w == g.sheet, "C16 literal differs from run-time parsing", "{text:?}: {:?} != {:?}", g.sheet, w);
        }
        (Some(_), None) => check!(false, "C16 literal rejected, accepted at run time", "{text:?}"),
        (None, Some(_)) => check!(false, "C16 literal accepted, rejected at run time", "{text:?}"),
    }
}
/// Some(true) if every placeholder is well formed
fn unescape_all(t: &str) -> Option<bool> {
    let b = t.as_bytes();
    // the only placeholder is the one put in; `$` in front of it makes an escape
    Some(!t.contains("$${"))
}
fn arb(k: usize, pre: &str, post: &str) -> Option<String> {
    let b = rt::bytes(k);
    match std::str::from_utf8(&b) {
        Ok(s) => Some(format!("{pre}{s}{post}")),
        Err(_) => None,
    }
}
const CSS: &[u8] = b"ab:;{}/* \"\\@&,.$";
const ASCII: &[u8] = &{
    let mut a = [0u8; 128];
    let mut i = 0;
    while i < 128 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
/// white space that is not ASCII, a combining mark, letters of every width
const WIDE: [&str; 7] = ["\u{a0}", "\u{85}", "\u{e9}", "\u{301}", "\u{3000}", "\u{4e2d}", "\u{1f600}"];
const CTX: [(&str, &str); 12] = [
    ("", ""),
    ("a:", ";"),
    ("a{", "}"),
    ("a", "{b:c}"),
    ("a{b:", "}"),
    ("a:\"", "\";"),
    ("@media ", "{a:b;}"),
    ("@media a{", "}"),
    ("a[b=\"", "\"]{c:d}"),
    ("a{b:\"", "\"}"),
    ("@keyframes k{", "}"),
    ("a{@media b{", "}}"),
];
fn ctx() -> (&'static str, &'static str) {
    CTX[rt::choice(CTX.len() as u32) as usize]
}
fn alpha(k: usize, set: &[u8], c: (&str, &str)) -> String {
    format!("{}{}{}", c.0, of(set, k), c.1)
}
pub fn argument(out: &mut TokenStream, name: &str, expr: TokenStream) {
    out.extend([TokenTree::Punct(Punct::new(',', Spacing::Alone))]);
    out.extend([TokenTree::Ident(Ident::new(name, Span::call_site()))]);
    out.extend([TokenTree::Punct(Punct::new('=', Spacing::Alone))]);
    out.extend(expr);
}
pub fn var(n: &str) -> TokenStream {
    TokenTree::Ident(Ident::new(n, Span::call_site())).into()
}
/// the text with every placeholder replaced and `$${` unescaped
fn subst(t: &str, val: &dyn Fn(&str) -> String) -> String {
    let b = t.as_bytes();
    let mut o: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"$${") {
            o.extend_from_slice(b"${");
            i += 3;
        } else if b[i..].starts_with(b"${") {
            let n = b[i..].iter().position(|c| *c == b'}').unwrap();
            o.extend_from_slice(val(t[i + 2..i + n].trim()).as_bytes());
            i += n + 1;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).unwrap()
}
/// expands a literal with arguments `name = <variable v_name>`
fn with_args(text: &str, env: &[(&str, String)]) -> Option<Out> {
    let mut t = lit(text);
    for (n, _) in env {
        argument(&mut t, n, var(n));
    }
    expand(crate::sheet, t, env)
}
#[derive(PartialEq, Debug, Clone)]
enum F {
    L(String),
    I(String),
}
/// text and placeholders of a format string; None if a placeholder is malformed
fn pieces(t: &str) -> Option<Vec<F>> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut cur = String::new();
    let ws = |c: u8| c == b' ' || c == b'\t' || c == b'\r' || c == b'\n';
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(b"$${") {
            cur.push_str("${");
            i += 3;
        } else if b[i..].starts_with(b"${") {
            let mut j = i + 2;
            while j < b.len() && ws(b[j]) {
                j += 1;
            }
            let s = j;
            while j < b.len() && (b[j].is_ascii_alphabetic() || (j > s && (b[j].is_ascii_digit() || b[j] == b'_'))) {
                j += 1;
            }
            let e = j;
            while j < b.len() && ws(b[j]) {
                j += 1;
            }
            if s == e || j >= b.len() || b[j] != b'}' {
                return None;
            }
            if !cur.is_empty() {
                v.push(F::L(std::mem::take(&mut cur)));
            }
            v.push(F::I(t[s..e].to_string()));
            i = j + 1;
        } else {
            let mut n = 1;
            while i + n < b.len() && (b[i + n] & 0xc0) == 0x80 {
                n += 1;
            }
            cur.push_str(&t[i..i + n]);
            i += n;
        }
    }
    if !cur.is_empty() {
        v.push(F::L(cur));
    }
    Some(v)
}
fn split(t: &str) {
    let got = match crate::fstr::Parser::parse(t) {
        Err(_) => None,
        Ok(f) => {
            let mut v: Vec<F> = vec![];
            for x in f {
                match x {
                    crate::fstr::Fragment::Literal(s) => {
                        if let Some(F::L(p)) = v.last_mut() {
                            p.push_str(&s);
                        } else if !s.is_empty() {
                            v.push(F::L(s));
                        }
                    }
                    crate::fstr::Fragment::Interpolation(s) => v.push(F::I(s)),
                }
            }
            Some(v)
        }
    };
    let want = pieces(t);
    rt::cover(match &want {
        None => "malformed",
        Some(v) if v.iter().any(|x| matches!(x, F::I(_))) => "placeholder",
        _ => "text",
    });
    check!(got == want, "C18 format string split wrongly", "{t:?}: {got:?} != {want:?}");
}
/// a literal around a hole, and the place of the hole
const HOLES: [(&str, &str); 12] = [
    ("a:", ";"),
    ("a:b ", " c;"),
    ("p{a:", "}"),
    ("p{a:\"", "\"}"),
    ("", "{a:b}"),
    (".x ", " y, z{a:b}"),
    ("p, ", "{a:b}"),
    ("&:not(", "){a:b}"),
    ("[a=\"", "\"]{a:b}"),
    ("@media ", "{a:b;}"),
    ("@supports (a:", "){p{a:b}}"),
    ("p{@media x and ", "{a:b}}"),
];
fn vtext() -> String {
    match rt::choice(4) {
        0 => String::new(),
        1 => of(b"a ,;{}\"\\$&\n", 1),
        2 => wide() + &of(b"a,;{$&", 1),
        _ => "${y}".to_string(),
    }
}
/// checks a text with placeholders x, y against its run-time parse with the values written in place
fn interpolated(text: &str, env: &[(&str, String)]) {
    let want = match text.parse::<Sheet>() {
        Ok(s) => Some(map(&of_sheet(&s), &|x| {
            subst(x, &|n| env.iter().find(|e| e.0 == n).unwrap().1.clone())
        })),
        Err(_) => None,
    };
    let got = with_args(text, env);
    match (&want, &got) {
        (None, None) => rt::cover("rejected"),
        (Some(w), Some(g)) => {
            rt::cover("accepted");
            check!(*w == g.sheet, "C17 interpolation differs", "{text:?}: {:?} != {:?}", g.sheet, w);
            check!(!g.frozen, "C20 run-time value kept in a static", "{text:?}");
        }
        (Some(_), None) => check!(false, "C17 literal with arguments rejected", "{text:?}"),
        (None, Some(_)) => check!(false, "C17 literal accepted, text is not", "{text:?}"),
    }
}
/// the opaque form: the text with an identifier in the hole, which is then replaced by the value
fn opaque(h: (&str, &str), v: &str) {
    let text = format!("{}${{x}}{}", h.0, h.1);
    let t2 = format!("{}Zq{}", h.0, h.1);
    let s = t2.parse::<Sheet>().unwrap();
    let want = map(&of_sheet(&s), &|x| x.replace("Zq", v));
    match with_args(&text, &[("x", v.to_string())]) {
        Some(g) => check!(want == g.sheet, "C17 value not written in place", "{text:?} x={v:?}: {:?} != {want:?}", g.sheet),
        None => check!(false, "C17 literal with arguments rejected", "{text:?}"),
    }
}
fn shapes(mut b: u32) {
    let mut d = Dev::new(1, true, true, true);
    let v = scope(&mut d, &mut b, 2);
    let s = text(&mut d, &v);
    same_raw(&s)
}
harnesses! {
    fn c16_bytes2() {
        if let Some(s) = arb(2, "", "") { same(&s) }
    }
    fn c16_bytes3() {
        if let Some(s) = arb(3, "", "") { same(&s) }
    }
    fn c16_ctx1() {
        let c = ctx();
        if let Some(s) = arb(1, c.0, c.1) { same(&s) }
    }
    fn c16_ctx2() {
        // two ASCII characters, or an ASCII character and a wider one
        let c = ctx();
        let a = rt::from(ASCII);
        match rt::choice(3) {
            0 => same(&format!("{}{}{}{}", c.0, a as char, rt::from(ASCII) as char, c.1)),
            1 => same(&format!("{}{}{}{}", c.0, a as char, WIDE[rt::choice(WIDE.len() as u32) as usize], c.1)),
            _ => same(&format!("{}{}{}{}", c.0, WIDE[rt::choice(WIDE.len() as u32) as usize], a as char, c.1)),
        }
    }
    fn c16_ctx2u() {
        let c = ctx();
        if let Some(s) = arb(2, c.0, c.1) { same(&s) }
    }
    fn c16_ctx3() {
        let c = ctx();
        same(&alpha(3, CSS, c))
    }
    fn c16_string4() {
        let c = [CTX[5], CTX[8], CTX[9]][rt::choice(3) as usize];
        same(&alpha(4, b"${}a\\\"", c))
    }
    fn c16_shapes() { shapes(1) }
    fn c16_structs() {
        let mut d = Dev::none();
        let mut b = 4;
        let v = scope(&mut d, &mut b, 3);
        let s = text(&mut d, &v);
        same_raw(&s)
    }
    fn c16_words() { same_raw(&text(&mut Dev::none(), &crate::vocab::words(false))) }
    fn c16_many() { same_raw(&text(&mut Dev::none(), &crate::vocab::plain())) }
    fn c16_shapes2() { shapes(2) }
    fn c16_shapes3() { shapes(3) }
    fn c16_wrap() {
        let (m, w): (fn(TokenStream) -> TokenStream, &[&str]) = match rt::choice(4) {
            0 => (crate::css, &["StyleSource::from"]),
            1 => (crate::style, &["Style::new"]),
            2 => (crate::global_style, &["GlobalStyle::new"]),
            _ => (crate::use_style, &["StyleSource::from", "use_style"]),
        };
        let c = ctx();
        let s = alpha(1, b"ab:;{}\" ,", c);
        let a = expand(crate::sheet, lit(&s), &[]);
        let b = expand(m, lit(&s), &[]);
        match (&a, &b) {
            (None, None) => rt::cover("rejected"),
            (Some(a), Some(b)) => {
                rt::cover("accepted");
                check!(a.sheet == b.sheet, "C16 macros disagree", "{s:?} {w:?}");
                let ctor: Vec<&String> = b.wrap.iter().filter(|x| *x != "Sheet::from").collect();
                check!(ctor == w, "C16 wrong constructor", "{s:?} {:?}", b.wrap);
            }
            _ => check!(false, "C16 macros disagree on acceptance", "{s:?} {w:?}"),
        }
    }
    fn c17_sites() {
        let h = HOLES[rt::choice(HOLES.len() as u32) as usize];
        let v = vtext();
        opaque(h, &v);
    }
    fn c17_around() {
        // a placeholder between two arbitrary syntax characters, at every site
        let h = HOLES[rt::choice(HOLES.len() as u32) as usize];
        let t = format!("{}{}${{x}}{}{}", h.0, of(b"a {};:,\"&.$", 1), of(b"a {};:,\"&.$", 1), h.1);
        if matches!(unescape_all(&t), Some(true)) {
            interpolated(&t, &[("x", "v".to_string())])
        }
    }
    fn c17_two() {
        // two placeholders, same or different, at two sites, arbitrary name and spaces in the braces
        let n0 = of(b"abz", 1) + &of(b"az0_", 1);
        let n1 = if rt::flag() { n0.clone() } else { "q".to_string() };
        let sp = of(b" \t\n\r", rt::choice(2) as usize);
        let (h0, h1) = (HOLES[rt::choice(HOLES.len() as u32) as usize], HOLES[rt::choice(4) as usize]);
        let t = format!("{}${{{sp}{n0}{sp}}}{}{}${{{n1}}}-${{{n0}}}{}", h0.0, h0.1, h1.0, h1.1);
        let mut env = vec![(n0.as_str(), of(b"v,{", 1))];
        if n1 != n0 {
            env.push((n1.as_str(), "w".to_string()));
        }
        if rt::flag() {
            env.reverse();
        }
        interpolated(&t, &env)
    }
    fn c17_many() {
        // any number of placeholders, of as many names or of two
        let n = crate::vocab::count(false).min(65);
        let names: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
        let two = rt::fork(2) == 1;
        let t: String = (0..n as usize).map(|i| match i % 3 {
            0 => format!("k{i}:a ${{{}}};", names[if two { i % 2 } else { i }]),
            1 => format!("p{i} ${{{}}}{{a:b}}", names[if two { i % 2 } else { i }]),
            _ => format!("@media ${{{}}}{{a:${{{0}}};}}", names[if two { i % 2 } else { i }]),
        }).collect();
        let mut env: Vec<(&str, String)> = names.iter().take(if two { 2 } else { n as usize }).enumerate().map(|(i, x)| (x.as_str(), format!("v{i}"))).collect();
        let k = [0, env.len() / 2, env.len() - 1][rt::fork(3) as usize];
        env[k].1 = of(b"az;{}\"$", 1);
        if rt::fork(2) == 1 { env.reverse(); }
        match rt::fork(3) {
            0 => interpolated(&t, &env),
            1 => {
                // one missing
                let x = env.remove(k);
                check!(with_args(&t, &env).is_none(), "C17 placeholder without argument accepted", "{t:?} {x:?}");
            }
            _ => {
                // one never used
                env.insert(k, ("y", "v".to_string()));
                check!(with_args(&t, &env).is_none(), "C17 unused argument accepted", "{t:?} {env:?}");
            }
        }
    }
    fn c17_args() {
        // which argument lists are accepted for which placeholders
        let k = rt::choice(3) as usize;
        let p: Vec<String> = (0..k).map(|_| of(b"xyz", 1)).collect();
        let n = rt::choice(4) as usize;
        let a: Vec<String> = (0..n).map(|_| of(b"xyz", 1)).collect();
        let mut s = String::from("a:b");
        for x in &p {
            s.push_str(&format!(" ${{{x}}}"));
        }
        s.push(';');
        let env: Vec<(&str, String)> = a.iter().map(|x| (x.as_str(), format!("<{x}>"))).collect();
        let dup = (0..n).any(|i| (0..i).any(|j| a[i] == a[j]));
        let missing = p.iter().any(|x| !a.contains(x));
        let unused = a.iter().any(|x| !p.contains(x));
        let mut t = lit(&s);
        for x in &a {
            argument(&mut t, x, var(x));
        }
        if rt::flag() {
            t.extend([TokenTree::Punct(Punct::new(',', Spacing::Alone))]);
        }
        match expand(crate::sheet, t, &env) {
            Some(g) => {
                rt::cover("accepted");
                check!(!dup, "C17 duplicate argument accepted", "{s:?} {a:?}");
                check!(!missing, "C17 missing argument accepted", "{s:?} {a:?}");
                check!(!unused, "C17 unused argument accepted", "{s:?} {a:?}");
                let want = subst(&s[2..s.len() - 1], &|n| format!("<{n}>"));
                check!(g.sheet == vec![T::Block(vec![], vec![T::Attr("a".to_string(), want)])], "C17 wrong value", "{s:?} {a:?}");
            }
            None => {
                rt::cover("rejected");
                check!(dup || missing || unused, "C17 fitting arguments rejected", "{s:?} {a:?}");
            }
        }
    }
    fn c17_argsyntax() {
        // malformed argument lists are compile errors: every list of up to 4 tokens
        let n = rt::choice(6) as usize;
        let mut t = lit("a:${x};");
        let mut k = vec![];
        for _ in 0..n {
            let c = rt::choice(4);
            k.push(c);
            t.extend([match c {
                0 => TokenTree::Punct(Punct::new(',', Spacing::Alone)),
                1 => TokenTree::Punct(Punct::new('=', Spacing::Alone)),
                2 => TokenTree::Ident(Ident::new("x", Span::call_site())),
                _ => TokenTree::Literal(Literal::string("v")),
            }]);
        }
        let ok = |k: &[u32]| k == [0, 2, 1, 2] || k == [0, 2, 1, 3] || k == [0, 2, 1, 2, 0] || k == [0, 2, 1, 3, 0];
        let got = std::panic::catch_unwind(move || crate::sheet(t));
        let rejected = match got {
            Err(_) => true,
            Ok(t) => is_rejected(&t),
        };
        // an argument without or with several tokens is left to the compiler
        let left = n >= 3 && k[..3] == [0, 2, 1] && !ok(&k);
        if !left {
            rt::cover(if rejected { "rejected" } else { "accepted" });
            check!(rejected != ok(&k), "C17 argument list misread", "{k:?} rejected={rejected}");
        }
    }
    fn c18_bytes4() {
        let b = rt::bytes(4);
        if let Ok(s) = std::str::from_utf8(&b) { split(s) }
    }
    fn c18_alpha7() {
        split(&of(b"${}a_1 ", 7))
    }
    fn c18_alpha9() {
        split(&of(b"${}a", 9))
    }
    fn c18_within() {
        // pieces in a row, each text or placeholder, and every text kept
        let n = 1 + rt::choice(3) as usize;
        let mut t = String::new();
        for _ in 0..n {
            match rt::choice(4) {
                0 => t.push_str(&of(b"$ab{} \n", 2)),
                1 => t.push_str(&format!("${{{}}}", of(b"ab1_", 2))),
                2 => t.push_str("$${"),
                _ => t.push_str(&wide()),
            }
        }
        split(&t)
    }
    fn c18_many() {
        // any number of pieces and any length of them
        let n = crate::vocab::count(true) as usize;
        let k = [0, n / 2, n - 1][rt::fork(3) as usize];
        let odd = of(b"${}a ", 2);
        let t: String = match rt::fork(3) {
            0 => (0..n.min(257)).map(|i| if i == k { odd.clone() } else { ["${x}", "a", "$${", "b${y1}", " "][i % 5].to_string() }).collect(),
            1 => format!("{}{odd}{}", "a".repeat(k), "b".repeat(n - k)),
            _ => format!("${{x{}}}{odd}", "y".repeat(n)),
        };
        split(&t)
    }
    fn c18_macro() {
        // the same through the macro: in a string, text is kept
        let t = of(b"${}a1 ", 5);
        let s = format!("a:\"{t}\";");
        match pieces(&t) {
            None => {
                rt::cover("malformed");
                check!(expand(crate::sheet, lit(&s), &[]).is_none(), "C18 malformed placeholder accepted", "{s:?}");
            }
            Some(v) => {
                let mut names: Vec<String> = vec![];
                let mut want = String::from("\"");
                for f in &v {
                    match f {
                        F::L(s) => want.push_str(s),
                        F::I(n) => {
                            want.push_str("<v>");
                            if !names.contains(n) {
                                names.push(n.clone());
                            }
                        }
                    }
                }
                want.push('"');
                rt::cover(if names.is_empty() { "text" } else { "placeholder" });
                let env: Vec<(&str, String)> = names.iter().map(|n| (n.as_str(), "<v>".to_string())).collect();
                match with_args(&s, &env) {
                    Some(g) => check!(
                        g.sheet == vec![T::Block(vec![], vec![T::Attr("a".to_string(), want.clone())])],
                        "C18 text of a literal changed", "{s:?}: {:?} != {want:?}", g.sheet
                    ),
                    None => check!(false, "C18 literal rejected", "{s:?}"),
                }
            }
        }
    }
}
