//! C19-C22: inline (token) styles.
use crate::ev::*;
use crate::gen::*;
use crate::rt;
use proc_macro2::*;
use stylist_core::ast::Sheet;

/// A token as CSS sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ident(String),
    Lit(String),
    P(char),
    Open(char),
    Close(char),
    Expr(String),
}
fn is_dash(t: Option<&TokenTree>) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == '-')
}
fn is_ident(t: Option<&TokenTree>) -> bool {
    matches!(t, Some(TokenTree::Ident(_)))
}
/// true if a run-time expression is among the tokens
pub fn flatten(ts: TokenStream, env: &[(&str, String)], out: &mut Vec<R>) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut dynamic = false;
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(_) | TokenTree::Punct(_)
                if is_ident(v.get(i)) || (is_dash(v.get(i)) && (is_dash(v.get(i + 1)) || is_ident(v.get(i + 1)))) =>
            {
                let mut s = String::new();
                loop {
                    match &v[i] {
                        TokenTree::Ident(x) => {
                            let x = x.to_string();
                            s.push_str(x.strip_prefix("r#").unwrap_or(&x));
                            i += 1;
                            if !is_dash(v.get(i)) {
                                break;
                            }
                        }
                        TokenTree::Punct(p) => {
                            s.push('-');
                            let joint = p.spacing() == Spacing::Joint;
                            i += 1;
                            if !(is_ident(v.get(i)) || (joint && is_dash(v.get(i)))) {
                                break;
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                out.push(R::Ident(s));
                continue;
            }
            TokenTree::Ident(_) => unreachable!(),
            TokenTree::Literal(l) => out.push(R::Lit(l.to_string())),
            TokenTree::Punct(p) => {
                if p.as_char() == '$' {
                    if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                        if g.delimiter() == Delimiter::Brace {
                            let e: Vec<TokenTree> = g.stream().into_iter().collect();
                            match &e[..] {
                                [TokenTree::Literal(l)] if str_value(l).is_some() => out.push(R::Expr(str_value(l).unwrap())),
                                _ => {
                                    dynamic = true;
                                    out.push(R::Expr(opaque(g.stream(), env)));
                                }
                            }
                            i += 2;
                            continue;
                        }
                    }
                }
                out.push(R::P(p.as_char()));
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ('(', ')'),
                    Delimiter::Brace => ('{', '}'),
                    Delimiter::Bracket => ('[', ']'),
                    Delimiter::None => unreachable!(),
                };
                out.push(R::Open(a));
                dynamic |= flatten(g.stream(), env, out);
                out.push(R::Close(b));
            }
        }
        i += 1;
    }
    dynamic
}
/// the documented spacing rule
fn spaced(l: &R, r: &R) -> bool {
    matches!(l, R::Ident(_) | R::Lit(_) | R::Close(_) | R::P('*') | R::P('&'))
        && matches!(r, R::Ident(_) | R::Lit(_) | R::P('*') | R::P('#'))
}
/// The style as one text: its tokens, spaced as documented, `@name ` at the
/// start of at-rules, statement at-rules with an empty block, and without the
/// comma that ends a selector list.
pub fn reference(v: &[R]) -> String {
    let mut s = String::new();
    let mut start = true;
    let mut at = false;
    let mut paren = 0;
    // whether the open blocks have no selector (then they are their parent's)
    let mut bare = vec![];
    let mut i = 0;
    while i < v.len() {
        let t = &v[i];
        let next = v.get(i + 1);
        if start && *t == R::P('@') {
            if let Some(R::Ident(n)) = next {
                s.push_str(&format!("@{n} "));
                i += 2;
                start = false;
                at = true;
                continue;
            }
        }
        let first = start;
        start = false;
        match t {
            R::Ident(x) | R::Lit(x) | R::Expr(x) => s.push_str(x),
            R::P(';') if paren == 0 => {
                s.push_str(if at { "{}" } else { ";" });
                start = true;
                at = false;
            }
            R::P(',') if paren == 0 && !at && next == Some(&R::Open('{')) => {}
            R::P(c) => s.push(*c),
            R::Open('{') => {
                bare.push(first);
                if !first {
                    s.push('{');
                }
                start = true;
                at = false;
            }
            R::Close('}') => {
                if !bare.pop().unwrap() {
                    s.push('}');
                }
                start = true;
                at = false;
            }
            R::Open(c) => {
                paren += 1;
                s.push(*c)
            }
            R::Close(c) => {
                paren -= 1;
                s.push(*c)
            }
        }
        if let Some(n) = next {
            let keyword = at
                && matches!(t, R::Ident(x) if x == "and" || x == "or" || x == "not")
                && *n == R::Open('(')
                && (i == 0 || v[i - 1] != R::P(':'));
            if !start && (keyword || spaced(t, n)) {
                s.push(' ');
            }
        }
        i += 1;
    }
    s
}
pub fn print(v: &[T], top: bool, s: &mut String) {
    for t in v {
        match t {
            T::Attr(k, v) => s.push_str(&format!("{k}:{v};")),
            T::Block(c, v) if c.is_empty() && top => print(v, false, s),
            T::Block(c, v) => {
                s.push_str(&c.join(","));
                s.push('{');
                print(v, false, s);
                s.push('}');
            }
            T::Rule(c, v) => {
                s.push_str(c);
                s.push('{');
                print(v, true, s);
                s.push('}');
            }
        }
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_whitespace()).collect()
}
#[derive(Clone, Copy, PartialEq)]
enum W {
    C19,
    C20,
    C21,
}
fn env() -> [(&'static str, String); 1] {
    [("x", "<v>".to_string())]
}
fn inline(text: &str, w: W) {
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return rt::cover("not tokens"),
    };
    if let Some(TokenTree::Literal(_)) = ts.clone().into_iter().next() {
        return rt::cover("literal");
    }
    let env = env();
    let g = match expand(crate::sheet, ts.clone(), &env) {
        Some(g) => g,
        None => return rt::cover("rejected"),
    };
    rt::cover("accepted");
    let mut r = vec![];
    let dynamic = flatten(ts, &env, &mut r);
    match w {
        W::C19 | W::C21 => {
            let want = reference(&r);
            let mut got = String::new();
            print(&g.sheet, true, &mut got);
            rt::emit(got.as_bytes());
            if w == W::C21 {
                check!(squeeze(&got) == squeeze(&want), "C21 tokens lost, added or moved", "{text:?}: {got:?} != {want:?}");
            } else {
                check!(got == want, "C19 wrong spacing", "{text:?}: {got:?} != {want:?}");
            }
        }
        W::C20 => {
            rt::cover(if dynamic { "dynamic" } else { "static" });
            check!(!g.frozen, "C20 run-time value kept in a static", "{text:?}");
            check!((g.dynamic > 0) == dynamic, "C20 run-time expression lost", "{text:?}");
            check!(dynamic || g.statics > 0, "C20 static style built on every evaluation", "{text:?}");
        }
    }
}
const CTX: [(&str, &str); 10] = [
    ("", "{a:b;}"),
    ("a:", ";"),
    ("@media ", "{a:b;}"),
    ("", ""),
    ("p{", "}"),
    ("@media m{", "}"),
    ("p{@supports ", "{a:b;}}"),
    ("p{a:f(", ");}"),
    ("a[", "]{a:b;}"),
    ("", ":b;c:d;"),
];
const TOK: &[u8] = b"a1-.#:&*>,\"()[]{}; @${}x";
fn ctx() -> (&'static str, &'static str) {
    CTX[rt::choice(CTX.len() as u32) as usize]
}
fn chars(k: usize, w: W) {
    let c = ctx();
    inline(&format!("{}{}{}", c.0, of(TOK, k), c.1), w)
}

/// A sheet in the inline syntax: its text spaced by the documented rule.
struct G {
    d: Dev,
    /// placeholders allowed
    expr: bool,
    used: bool,
    /// nothing but placeholders
    only: bool,
}
const LOW: &[u8] = b"abcxyz_";
const ALN: &[u8] = b"abcxyz_09";
const DIG: &[u8] = b"07";
fn name() -> String {
    match rt::choice(6) {
        0 => of(LOW, 2),
        1 => of(LOW, 1) + "-" + &of(LOW, 1),
        2 => "-".to_string() + &of(LOW, 1) + "-" + &of(LOW, 1),
        3 => "--".to_string() + &of(LOW, 1) + &of(ALN, 1),
        4 => ["type", "self", "fn"][rt::choice(3) as usize].to_string(),
        _ => "-webkit-box-".to_string() + &of(LOW, 1),
    }
}
fn num() -> String {
    match rt::choice(4) {
        0 => of(DIG, 2),
        1 => of(DIG, 1) + "." + &of(DIG, 1) + "px",
        2 => of(DIG, 1) + ["px", "s", "ms"][rt::choice(3) as usize],
        _ => of(DIG, 1) + "%",
    }
}
/// a number that is a single token
fn unit() -> String {
    match rt::choice(3) {
        0 => of(DIG, 2),
        1 => of(DIG, 1) + "." + &of(DIG, 1) + "px",
        _ => of(DIG, 1) + ["px", "rem", "deg"][rt::choice(3) as usize],
    }
}
fn string() -> String {
    match rt::choice(3) {
        0 => format!("\"{}\"", of(b"a .;{(/&#@", 2)),
        1 => format!("\"{}\\{}\"", of(b"a,", 1), of(b"\"\\n'", 1)),
        _ => format!("\"{}\"", ["\u{e9}", "\u{4e2d}"][rt::choice(2) as usize]),
    }
}
impl G {
    fn hole(&mut self) -> bool {
        if self.expr && rt::flag() {
            self.used = true;
            return true;
        }
        false
    }
    fn key(&mut self, dflt: &str) -> String {
        if self.only {
            return dflt.to_string();
        }
        if !self.d.leaf() {
            return dflt.to_string();
        }
        name()
    }
    fn value(&mut self, dflt: &str) -> String {
        if !self.d.leaf() {
            return dflt.to_string();
        }
        if self.only {
            self.used = true;
            return "${x}".to_string();
        }
        if self.hole() {
            return match rt::choice(6) {
                0 => "${x}".to_string(),
                1 => of(LOW, 1) + "${x}" + &of(LOW, 1),
                2 => "f(${x},".to_string() + &num() + ")",
                3 => "${x}/${x}".to_string(),
                4 => "#${x}".to_string(),
                _ => "${x},".to_string() + &string(),
            };
        }
        match rt::choice(12) {
            0 => name(),
            1 => num(),
            2 => string(),
            3 => name() + " " + &num(),
            4 => unit() + " " + &name(),
            5 => "f(".to_string() + &name() + "," + &num() + ")",
            6 => "#".to_string() + &of(b"abcdf0123456789", 3),
            7 => name() + "," + &string() + " " + &of(LOW, 1),
            8 => "f(g(".to_string() + &of(LOW, 1) + ") " + &of(LOW, 1) + ") " + &of(LOW, 1),
            9 => "-".to_string() + &of(DIG, 1) + "px",
            10 => of(DIG, 1) + "/" + &of(DIG, 1),
            _ => of(LOW, 1) + " #" + &of(LOW, 2),
        }
    }
    fn sel(&mut self, dflt: &str) -> String {
        if !self.d.leaf() {
            return dflt.to_string();
        }
        if self.only {
            self.used = true;
            return ".${x}".to_string();
        }
        if self.hole() {
            return match rt::choice(5) {
                0 => "${x}".to_string(),
                1 => ".${x}".to_string(),
                2 => "&${x}:".to_string() + &of(LOW, 1),
                3 => of(LOW, 1) + ">${x}",
                _ => of(LOW, 1) + "[" + &of(LOW, 1) + "=${x}]",
            };
        }
        match rt::choice(14) {
            0 => ".".to_string() + &name(),
            1 => of(LOW, 1) + " " + &of(LOW, 1),
            2 => of(LOW, 1) + &of(b">+~", 1) + &of(LOW, 1),
            3 => "#".to_string() + &of(LOW, 2),
            4 => of(LOW, 1) + " #" + &of(LOW, 2),
            5 => "*".to_string(),
            6 => of(LOW, 1) + " *." + &of(LOW, 1),
            7 => "& ".to_string() + &name(),
            8 => "&:".to_string() + &of(LOW, 2),
            9 => "&.".to_string() + &of(LOW, 1) + ":not(." + &of(LOW, 1) + ")",
            10 => of(LOW, 1) + "[" + &of(LOW, 1) + "=" + &string() + "]",
            11 => "&::".to_string() + &name(),
            12 => "&:".to_string() + &of(LOW, 1) + "(" + &of(DIG, 1) + "n+" + &of(DIG, 1) + ")",
            _ => "[".to_string() + &name() + "] " + &of(LOW, 1),
        }
    }
    fn cond(&mut self, dflt: &str) -> String {
        if !self.d.leaf() {
            return dflt.to_string();
        }
        if self.only {
            self.used = true;
            return "${x}".to_string();
        }
        if self.hole() {
            return match rt::choice(3) {
                0 => "${x}".to_string(),
                1 => "(a:${x})".to_string(),
                _ => of(LOW, 1) + " and (" + &of(LOW, 1) + ":${x})",
            };
        }
        match rt::choice(8) {
            0 => of(LOW, 2),
            1 => "(".to_string() + &name() + ":" + &num() + ")",
            2 => of(LOW, 1) + " and (" + &of(LOW, 1) + ")",
            3 => "not (".to_string() + &of(LOW, 1) + ":" + &of(LOW, 1) + ")",
            4 => "(".to_string() + &of(LOW, 1) + ") or (" + &of(LOW, 1) + ")",
            5 => of(LOW, 1) + "," + &of(LOW, 1),
            6 => "only ".to_string() + &of(LOW, 1) + " and (" + &of(LOW, 1) + ") and (" + &name() + ":" + &num() + ")",
            _ => "not ((".to_string() + &of(LOW, 1) + ") or (" + &of(LOW, 1) + "))",
        }
    }
    fn attr(&mut self, o: &mut String, n: u32) {
        const K: [&str; 4] = ["k", "l-m", "--n", "o"];
        let k = self.key(K[n as usize % 4]);
        let v = self.value("v");
        o.push_str(&format!("{k}:{v};"));
    }
    fn tag(&mut self) -> &'static str {
        if self.d.opt() {
            "@supports "
        } else {
            "@media "
        }
    }
    fn rule(&mut self, o: &mut String) {
        let t = self.tag();
        let c = self.cond("m");
        o.push_str(t);
        o.push_str(&c);
        o.push('{');
    }
    fn inner(&mut self, o: &mut String, budget: &mut u32, depth: u32) {
        while *budget > 0 {
            match rt::choice(if depth > 0 { 3 } else { 2 }) {
                0 => break,
                1 => {
                    *budget -= 1;
                    self.attr(o, *budget);
                }
                _ => {
                    *budget -= 1;
                    self.rule(o);
                    self.inner(o, budget, depth - 1);
                    o.push('}');
                }
            }
        }
    }
    fn scope(&mut self, o: &mut String, budget: &mut u32, depth: u32) {
        while *budget > 0 {
            match rt::choice(if depth > 0 { 4 } else { 3 }) {
                0 => break,
                1 => {
                    *budget -= 1;
                    self.attr(o, *budget);
                }
                2 => {
                    *budget -= 1;
                    const S: [&str; 3] = [".p", "q r", "&:s"];
                    let s = self.sel(S[*budget as usize % 3]);
                    o.push_str(&s);
                    if self.d.opt() {
                        o.push(',');
                        let s = self.sel("t");
                        o.push_str(&s);
                    }
                    o.push('{');
                    self.inner(o, budget, depth.saturating_sub(1));
                    o.push('}');
                }
                _ => {
                    *budget -= 1;
                    self.rule(o);
                    self.scope(o, budget, depth - 1);
                    o.push('}');
                }
            }
        }
    }
}
fn gen(k: usize, expr: bool, mut budget: u32, depth: u32) -> (String, bool) {
    let mut g = G { d: Dev::new(k, false, true, true), expr, used: false, only: false };
    let mut o = String::new();
    g.scope(&mut o, &mut budget, depth);
    (o, g.used)
}
/// the inline style against the run-time parse of its text
fn agree(text: &str, v: &str) {
    let env = [("x", v.to_string())];
    let want = match text.parse::<Sheet>() {
        Ok(s) => map(&of_sheet(&s), &|x| x.replace("${x}", v)),
        Err(_) => {
            check!(false, "C22 text of a well-formed inline style rejected at run time", "{text:?}");
            return;
        }
    };
    let ts: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return rt::cover("not tokens"),
    };
    match expand(crate::sheet, ts, &env) {
        Some(g) => {
            rt::cover("agree");
            check!(g.sheet == want, "C22 inline and text differ", "{text:?}: {:?} != {want:?}", g.sheet);
        }
        None => check!(false, "C22 well-formed inline style rejected", "{text:?}"),
    }
}
/// static or dynamic, and current values on every evaluation
fn built(text: &str, dynamic: bool, ts: TokenStream) {
    let r = std::panic::catch_unwind(move || crate::sheet(ts));
    let t = match r {
        Ok(t) if !is_rejected(&t) => t,
        _ => return check!(false, "C20 style rejected", "{text:?}"),
    };
    let a = evaluate(t.clone(), &[("x", "one".to_string())]);
    let b = evaluate(t, &[("x", "two".to_string())]);
    rt::cover(if dynamic { "dynamic" } else { "static" });
    check!(!a.frozen, "C20 run-time value kept in a static", "{text:?}");
    check!((a.dynamic > 0) == dynamic, "C20 run-time expression lost or invented", "{text:?}");
    check!(dynamic || a.statics > 0, "C20 static style built on every evaluation", "{text:?}");
    check!((a.sheet != b.sheet) == dynamic, "C20 value not current", "{text:?}");
}
fn built_inline(n: u32) {
    let (s, used) = gen(1, true, n, 2);
    match s.parse::<TokenStream>() {
        Ok(t) => built(&s, used, t),
        Err(_) => rt::cover("not tokens"),
    }
}
fn built_literal(n: u32) {
    let (s, used) = gen(1, true, n, 2);
    let mut t = crate::lit::lit(&s);
    if used {
        crate::lit::argument(&mut t, "x", crate::lit::var("x"));
    }
    built(&s, used, t)
}
/// one run-time expression of any form
fn expression() -> (String, bool) {
    const U: &[u8] = b"abyzAZ_";
    const N: &[u8] = b"abZ_9";
    let f = match rt::choice(26) {
        0 => of(U, 1),
        1 => of(U, 1) + &of(N, 1) + &of(N, 1),
        2 => of(b"abAZ", 1) + "::" + &of(U, 1) + &of(N, 1),
        3 => "::".to_string() + &of(b"abAZ", 1) + "::" + &of(b"abAZ", 1) + "::" + &of(b"abAZ", 1),
        4 => of(U, 1) + &of(N, 1) + "()",
        5 => of(b"abAZ", 1) + "::" + &of(U, 1) + "(1)",
        6 => of(U, 1) + "(\"a\", 2)",
        7 => of(U, 1) + "." + &of(b"abAZ", 1) + "()",
        8 => of(U, 1) + "." + &of(b"abAZ0", 1),
        9 => of(U, 1) + "[" + &of(b"aA0", 1) + "]",
        10 => of(b"am", 1) + "!(" + &of(b"aA0", 1) + ")",
        11 => of(b"am", 1) + "!{}",
        12 => of(b"*&-!", 1) + &of(U, 1),
        13 => of(b"aA0", 1) + &of(b"+-*/<", 1) + &of(b"aA", 1),
        14 => "{".to_string() + &of(U, 1) + "}",
        15 => "{".to_string() + &of(b"aA", 1) + ";" + &of(b"aA", 1) + "}",
        16 => "(".to_string() + &of(U, 1) + ")",
        17 => "if ".to_string() + &of(b"aA", 1) + "{\"a\"}else{\"b\"}",
        18 => "match ".to_string() + &of(b"aA", 1) + "{_=>1}",
        19 => "(||".to_string() + &of(U, 1) + ")()",
        20 => of(b"aA", 1) + " as " + &of(b"uU", 1),
        21 => "unsafe{".to_string() + &of(U, 1) + "}",
        22 => of(b"aA", 1) + "::<" + &of(b"uU", 1) + ">()",
        23 => "self.".to_string() + &of(U, 1),
        24 => ["r#type", "Self::A", "crate::A", "self", "super::a", "$x"][rt::choice(5) as usize].to_string(),
        // a constant: either way is right
        _ => return (["5", "1.5", "'c'", "true", "5u8", "-5", "\"w\"", "concat!(\"w\")"][rt::choice(8) as usize].to_string(), false),
    };
    (f, true)
}
fn exprs() {
    let (e, dynamic) = expression();
    const C: [(&str, &str); 7] = [
        ("a:", ";"),
        ("@media (a:", "){b:c;}"),
        (".", "{a:b;}"),
        ("p{a:f(", ");}"),
        ("p{@supports ", "{a:b;}}"),
        ("b:c;@media m{.p,.", "{a:b;}}"),
        ("a:b ", " \"c\";d:e;"),
    ];
    let c = C[rt::choice(7) as usize];
    let t = if rt::flag() {
        match format!("{}${{{e}}}{}", c.0, c.1).parse::<TokenStream>() {
            Ok(t) => t,
            Err(_) => return rt::cover("not tokens"),
        }
    } else {
        let e: TokenStream = match e.parse() {
            Ok(t) => t,
            Err(_) => return rt::cover("not tokens"),
        };
        let mut t = crate::lit::lit(&format!("{}${{x}}{}", c.0, c.1));
        crate::lit::argument(&mut t, "x", e);
        t
    };
    let r = std::panic::catch_unwind(move || crate::sheet(t));
    let t = match r {
        Ok(t) if !is_rejected(&t) => t,
        _ => return rt::cover("rejected"),
    };
    let a = evaluate(t, &[]);
    if dynamic {
        rt::cover("dynamic");
        check!(!a.frozen, "C20 run-time value kept in a static", "{e:?}");
        check!(a.dynamic == 1, "C20 run-time expression lost or repeated", "{e:?}");
    } else {
        rt::cover("constant");
        check!(!a.frozen || a.dynamic == 1, "C20 constant", "{e:?}");
    }
}
/// literals in place of run-time values, and what they display
fn literals() {
    const T: [(&str, &str); 32] = [
        ("5", "5"), ("1_000", "1000"), ("0x1F", "31"), ("0b1_01", "5"), ("0o17", "15"), ("5u8", "5"), ("1_0i64", "10"), ("007", "7"),
        ("1.50", "1.5"), ("2.0", "2"), ("1_0.2_5f64", "10.25"), ("0.0", "0"), ("10.0", "10"), ("100", "100"), ("-5", "-5"), ("-0x10", "-16"),
        ("'c'", "c"), ("'\\''", "'"), ("'\\u{e9}'", "\u{e9}"), ("'\\x41'", "A"), ("true", "true"), ("false", "false"), ("b'a'", "97"),
        ("\"w\"", "w"), ("\"a'b\"", "a'b"), ("\"\\x41\"", "A"), ("\"a\\\n   b\"", "ab"), ("r\"a\\b\"", "a\\b"),
        ("r#\"q\"#", "q"), ("\"\"", ""), ("\"${x}\"", "${x}"), ("\" w \"", " w "),
    ];
    let (e, shown) = if rt::flag() {
        let d = of(b"123456789", 1) + &of(b"0123456789_", 2);
        let s = if rt::flag() { "" } else { "u16" };
        (format!("{d}{s}"), d.replace('_', ""))
    } else {
        let t = T[rt::choice(32) as usize];
        (t.0.to_string(), t.1.to_string())
    };
    const C: [(&str, &str); 6] =
        [("a:", ";"), ("@media (a:", "){b:c;}"), (".", "{a:b;}"), ("p{a:f(", ");}"), ("b:c;@media m{.p,.", "{a:b;}}"), ("a:b ", " \"c\";d:e;")];
    let c = C[rt::choice(6) as usize];
    let inline = rt::flag();
    let t = if inline {
        // no space next to an interpolation
        format!("{}${{{e}}}{}", c.0, c.1).parse::<TokenStream>().expect("tokens")
    } else {
        let mut t = crate::lit::lit(&format!("{}${{x}}{}", c.0, c.1));
        crate::lit::argument(&mut t, "x", e.parse().expect("tokens"));
        t
    };
    let text = if inline { format!("{}${{x}}{}", c.0.trim(), c.1.trim_start()) } else { format!("{}${{x}}{}", c.0, c.1) };
    let want = map(&of_sheet(&text.parse::<Sheet>().expect("accepted")), &|x| x.replace("${x}", &shown));
    match expand(crate::sheet, t, &[]) {
        Some(g) => {
            rt::cover("agree");
            check!(g.sheet == want, "C22 literal not displayed", "{e} in {text:?}: {:?} != {want:?}", g.sheet);
        }
        None => check!(false, "C22 literal in place of a value rejected", "{e} in {text:?}"),
    }
}
/// sequences of k tokens of the first n kinds, each pair with or without white space between
fn toks(k: usize, n: usize, w: W) {
    let c = [CTX[1], CTX[2], CTX[0], CTX[6], CTX[7], CTX[8]][rt::choice(if k > 2 { 2 } else { 6 }) as usize];
    const T: [&str; 28] = [
        "a", "-", "1", "(b)", "and", "*", ".", "${x}", "&", ":", "not", "#", "\"s\"", "[b]", ",", ">", "%", "+", "/", "=", "!",
        "~", "^", "${\"w\"}", "or", "1.5e3", "2px", "type",
    ];
    let mut s = c.0.to_string();
    for i in 0..k {
        if i > 0 && rt::flag() {
            s.push_str(&of(b" \n\t", 1));
        }
        s.push_str(T[rt::choice(n as u32) as usize]);
    }
    s.push_str(c.1);
    inline(&s, w)
}
fn items(k: usize, w: W) {
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(["a", ":", ";", "{", "}", ",", "@media ", "${x}"][rt::choice(8) as usize]);
    }
    inline(&s, w)
}
/// the last four are rejected by the macro
const VALUES: [&str; 40] = [
    "red", "RED", "#fff", "#c0ffee", "#123", "1px", "1.5em", "50%", "1px solid red", "inherit", "\"x\"", "\"\"", "\"a;b\"", "\"{}\"",
    "\"/*\"", "\"a b\" \"c\"", "url(\"a;b.png\")", "var(--x)", "var(--x,red)", "1/2", "a,b", "rgb(0 0 0/50%)",
    "attr(x) \"b\"", "--x", "a(b(c)) d(e)", "-webkit-box", "translate(1px,2px) rotate(3deg)", "1.5e3", "0", "a b c d", "type", "match",
    "true", "self", "-1px", "a:b", "red!important", "calc(1px+2px)", "calc(100%-(1px*2))", "[a] 1fr[b]",
];
const KEYS: [&str; 12] = ["color", "Color", "--x", "--Main-Color", "-webkit-mask", "_zoom", "type", "match", "font-family", "x", "static", "a-b-c-d"];
const SELECTORS: [&str; 28] = [
    "a", "A", "*", ".a", "#b", ".a.b", "a b", "a>b", "a+b", "a~b", "&", "& a", "&:hover", "&::before", "&.a", ":hover", "::before", ":root", ":not(.a)",
    "[x]", "[x=\"y\"]", "&:nth-child(2n+1)", "*.a", "html", "body.a", "type", "#a-b", "&[x^=y]",
];
const CONDS: [&str; 18] = [
    "print", "PRINT", "(min-width:1px)", "(min-width:1px) and (max-width:2px)", "not all and (a)", "only screen", "screen,print", "(width>=1px)",
    "(1px<=width<2px)", "style(--a:b)", "not (display:grid)", "(a:b) or (c:d)", "selector(a>b)", "(aspect-ratio:16/9)", "(-webkit-a:1)", "(--a:b)",
    "not ((a) or (b))", "(a) and (b) and (not (c))",
];
/// an inline style in the words of real ones: at one place any, elsewhere plain ones
fn words(values: &[&str]) -> String {
    fn one(w: &[&str]) -> String {
        w[rt::fork(w.len() as u32) as usize].to_string()
    }
    let (mut k, mut v, mut s, mut q, mut c, mut t) = ("k".to_string(), "v".to_string(), "p".to_string(), "q".to_string(), "m".to_string(), "@media");
    match rt::fork(5) {
        0 => k = one(&KEYS),
        1 => v = one(values),
        2 => s = one(&SELECTORS),
        3 => q = one(&SELECTORS),
        _ => {
            c = one(&CONDS);
            t = ["@media", "@supports"][rt::fork(2) as usize];
        }
    }
    match rt::fork(4) {
        0 => format!("{k}:{v};{s}{{a:b;{k}:{v};}}"),
        1 => format!("{s},{q}{{a:b;}}{t} {c}{{{k}:{v};}}"),
        2 => format!("{t} {c}{{{s},{q}{{{k}:{v};}}}}a:b;"),
        _ => format!("{s}{{{t} {c}{{{k}:{v};}}a:b;}}"),
    }
}
/// many parts, inline; one of them dynamic
fn many(dynamic: bool) -> String {
    const N: [u32; 23] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 31, 32, 33, 64, 65];
    let n = N[rt::fork(23) as usize];
    let k = if dynamic { [0, n / 2, n - 1][rt::fork(3) as usize] } else { n };
    let v = |i: u32| if i == k { "${x}".to_string() } else { format!("v{i}") };
    let all = |f: &dyn Fn(u32) -> String| (0..n).map(f).collect::<String>();
    match rt::fork(11) {
        0 => all(&|i| format!("k{i}:{};", v(i))),
        1 => format!("p{{{}}}", all(&|i| format!("k{i}:{};", v(i)))),
        2 => (0..n).map(|i| if i == k { ".${x}".to_string() } else { format!("p{i}") }).collect::<Vec<_>>().join(",") + "{a:b;}",
        3 => all(&|i| format!("p{i}{{a:{};}}", v(i))),
        4 => all(&|i| format!("@media {}{{a:b;}}", v(i))),
        5 => format!("@media m{{{}}}", all(&|i| format!("p{i}{{k{i}:{};}}", v(i)))),
        6 => format!("p{{{}}}", all(&|i| if i % 2 == 0 { format!("k{i}:{};", v(i)) } else { format!("@media m{i}{{k{i}:{};}}", v(i)) })),
        7 => all(&|i| format!("@supports (a:b){{p{i},q{{k:{};}}}}", v(i))),
        8 => format!("a:{};", (0..n).map(|i| if i == k { ",${x}".to_string() } else { format!(",v{i} w") }).collect::<String>()),
        9 => format!("a:{}b{};", "f(".repeat(n as usize), if dynamic { ",${x}" } else { "" }.to_string() + &")".repeat(n as usize)),
        _ => format!("k{}:w{};", "-y".repeat(n as usize), if dynamic { ",${x}" } else { "" }),
    }
}
harnesses! {
    fn c21_words() { inline(&words(&VALUES), W::C21) }
    fn c21_many() { inline(&many(rt::fork(2) == 1), W::C21) }
    fn c22_words() { agree(&words(&VALUES[..36]), "v") }
    fn c22_many() { agree(&many(rt::fork(2) == 1), "v") }
    fn c20_many() {
        let d = rt::fork(2) == 1;
        let s = many(d);
        if rt::fork(2) == 0 {
            match s.parse::<TokenStream>() {
                Ok(t) => built(&s, d, t),
                Err(_) => rt::cover("not tokens"),
            }
        } else {
            let mut t = crate::lit::lit(&s);
            if d { crate::lit::argument(&mut t, "x", crate::lit::var("x")); }
            built(&s, d, t)
        }
    }
    fn c19_ctx2() { chars(2, W::C19) }
    fn c19_ctx3() { chars(3, W::C19) }
    fn c19_pairs() { toks(2, 28, W::C19) }
    fn c19_triples() { toks(3, 11, W::C19) }
    fn c19_triples28() { toks(3, 28, W::C19) }
    fn c19_quads() { toks(4, 9, W::C19) }
    fn c21_ctx2() { chars(2, W::C21) }
    fn c21_ctx3() { chars(3, W::C21) }
    fn c21_items5() { items(5, W::C21) }
    fn c21_items6() { items(6, W::C21) }
    fn c21_shapes3() { let (s, _) = gen(0, true, 3, 3); inline(&s, W::C21) }
    fn c21_shapes1() { let (s, _) = gen(1, true, 1, 2); inline(&s, W::C21) }
    fn c21_shapes4() { let (s, _) = gen(1, true, 4, 3); inline(&s, W::C21) }
    fn c22_shapes1() { let (s, _) = gen(1, true, 1, 2); agree(&s, "v") }
    fn c22_shapes2() { let (s, _) = gen(1, true, 2, 2); agree(&s, "v") }
    fn c22_shapes3() { let (s, _) = gen(1, true, 3, 2); agree(&s, "v") }
    fn c22_shapes4() { let (s, _) = gen(0, false, 4, 3); agree(&s, "v") }
    fn c22_shapes5() { let (s, _) = gen(0, false, 5, 3); agree(&s, "v") }
    fn c22_two() { let (s, _) = gen(2, true, 2, 2); agree(&s, "v") }
    fn c22_literals() { literals() }
    fn c20_inline() { built_inline(1) }
    fn c20_inline2() { built_inline(2) }
    fn c20_literal() { built_literal(1) }
    fn c20_literal2() { built_literal(2) }
    fn c20_places() {
        // one run-time value at any place of any shape, inline or literal
        let mut b = 3;
        let mut g = G { d: Dev::new(1, false, true, false), expr: true, used: false, only: true };
        let mut s = String::new();
        g.scope(&mut s, &mut b, 2);
        if rt::flag() {
            match s.parse::<TokenStream>() {
                Ok(t) => built(&s, g.used, t),
                Err(_) => rt::cover("not tokens"),
            }
        } else {
            let mut t = crate::lit::lit(&s);
            if g.used {
                crate::lit::argument(&mut t, "x", crate::lit::var("x"));
            }
            built(&s, g.used, t)
        }
    }
    fn c20_exprs() { exprs() }
    fn c20_ctx2() { chars(2, W::C20) }
    fn c20_ctx3() { chars(3, W::C20) }
    fn c20_pairs() { toks(2, 13, W::C20) }
    fn c20_triples() { toks(3, 13, W::C20) }
}
