//! Abstract stylesheets: generated symbolically, printed to text with chosen
//! trivia, and converted to the AST they denote (independently of the parser).
use crate::rt;
use std::borrow::Cow;
use stylist_core::ast::*;
use stylist_core::bow::Bow;

/// Chooses at most `K` deviating sites; every other site takes its default.
pub struct Dev {
    targets: Vec<u32>,
    ctr: u32,
    pub gaps: bool,
    pub leaves: bool,
    pub opts: bool,
    /// what to write into the gap, or into every gap: anything that separates, or white space
    pub fill: Option<(bool, String, String)>,
}
impl Dev {
    pub fn new(k: usize, gaps: bool, leaves: bool, opts: bool) -> Dev {
        let targets = (0..k).map(|_| rt::below(64)).collect();
        Dev { targets, ctr: 0, gaps, leaves, opts, fill: None }
    }
    pub fn none() -> Dev {
        Dev { targets: vec![], ctr: 0, gaps: false, leaves: false, opts: false, fill: None }
    }
    fn site(&mut self) -> bool {
        let c = self.ctr;
        self.ctr += 1;
        let mut hit = false;
        for t in &self.targets {
            if *t == c {
                hit = true;
            }
        }
        hit
    }
    pub fn gap(&mut self) -> bool {
        self.gaps && (matches!(self.fill, Some((true, ..))) || self.site())
    }
    pub fn leaf(&mut self) -> bool {
        self.leaves && self.site()
    }
    pub fn opt(&mut self) -> bool {
        self.opts && self.site()
    }
}

pub const WS: &[u8] = b" \t\r\n";
pub const IDENT0: &[u8] = b"-_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub const IDENT: &[u8] = b"-_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
/// Printable ASCII that may stand in a value outside strings.
pub const VALUE: &[u8] = if crate::RICH { b"!#%&'()*+,-.0123456789:<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz|~" } else { b"!#&(),-.09:@AZaz" };
/// Characters inside a double-quoted string (no quote, no backslash).
pub const INSTR: &[u8] = if crate::RICH { b" !#$%&'()*+,-./0123456789:;<=>?@AZ[]^_`az{|}~\t\n" } else { b" #&',/:;@az{}" };
pub const SEL0: &[u8] = if crate::RICH { b"!#%&'()*+-.0123456789:<=>?ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz|~" } else { b"#&(*-.09:>AZaz" };
pub const COND: &[u8] = if crate::RICH { b"!#%&'()*+,-./0123456789:<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz|~" } else { b"(),-09:@AZaz" };
pub const COMMENT: &[u8] = if crate::RICH { b" !\"#$%&'()*+,-./0123456789:;<=>?@AZ[\\]^_`az{|}~\t\r\n" } else { b" \"$/:;\\az{}\n" };

pub fn st(v: Vec<u8>) -> String {
    // all generators produce valid UTF-8
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn of(set: &[u8], n: usize) -> String {
    st((0..n).map(|_| rt::from(set)).collect())
}
/// an arbitrary two-byte UTF-8 character that is not white space (U+0085, U+00A0)
pub fn wide() -> String {
    if !crate::RICH {
        return ["\u{e9}", "\u{4e2d}"][rt::choice(2) as usize].to_string();
    }
    let a = rt::from(&[0xc3, 0xc4, 0xc5, 0xd0, 0xdf]);
    let b = rt::bytes(1)[0];
    rt::assume((b & 0xc0) == 0x80);
    st(vec![a, b])
}

pub fn ident(d: &mut Dev, default: &str) -> String {
    if !d.leaf() {
        return default.to_string();
    }
    match rt::choice(4) {
        0 => of(IDENT0, 1),
        1 => of(IDENT0, 1) + &of(IDENT, 1),
        2 => of(IDENT0, 1) + &of(IDENT, 2) + &wide(),
        _ => wide() + &of(IDENT, 1),
    }
}
pub fn dqstring() -> String {
    match rt::choice(5) {
        0 => "\"\"".to_string(),
        1 => format!("\"{}\"", of(INSTR, 2)),
        2 => format!("\"\\{}\"", of(b"\"\\ anA0{};", 1)),
        3 => format!("\"{}\\{}{}\"", of(INSTR, 1), of(b"\"\\ anA0{};", 1), of(INSTR, 1)),
        _ => format!("\"{}\\\\\"", wide()),
    }
}
pub fn value(d: &mut Dev, default: &str) -> String {
    if !d.leaf() {
        return default.to_string();
    }
    match rt::choice(9) {
        0 => of(VALUE, 1),
        1 => of(VALUE, 2),
        2 => of(VALUE, 1) + &of(b" \t\n", 1) + &of(VALUE, 1),
        3 => dqstring(),
        4 => of(VALUE, 1) + &dqstring() + &of(VALUE, 1),
        5 => of(VALUE, 1) + "/" + &of(b" !#%&'()+,-.0123456789:<=>?@AZ[]^_`az|~\n", 1) + &of(VALUE, 1),
        6 => wide() + &of(VALUE, 1) + &wide(),
        7 => dqstring() + ", " + &dqstring(),
        _ => "var(--".to_string() + &of(IDENT, 2) + ", url(" + &dqstring() + "))",
    }
}
/// an attribute selector without `${`, commas or braces outside strings
pub fn selector(d: &mut Dev, default: &str) -> String {
    if !d.leaf() {
        return default.to_string();
    }
    match rt::choice(8) {
        0 => of(SEL0, 1),
        1 => of(SEL0, 2),
        2 => of(SEL0, 1) + &of(b" >+~\t\n", 1) + &of(SEL0, 1),
        // like a declaration up to its brace
        7 => of(IDENT0, 1) + &of(b":", 1) + &of(SEL0, 1),
        3 => format!("[a={}]", dqstring()),
        4 => of(SEL0, 1) + &format!("[b={}]:c", dqstring()),
        5 => ".".to_string() + &wide(),
        _ => "&".to_string() + &of(SEL0, 1) + ":hover",
    }
}
pub fn cond(d: &mut Dev, default: &str) -> String {
    if !d.leaf() {
        return default.to_string();
    }
    match rt::choice(4) {
        0 => of(COND, 1),
        1 => of(COND, 2),
        2 => of(COND, 1) + &of(b" \t\n", 1) + &of(COND, 1),
        _ => "(".to_string() + &wide() + &of(COND, 1) + ")",
    }
}

#[derive(Clone, Debug)]
pub enum N {
    A(String, String),
    B(Vec<String>, Vec<N>),
    R(&'static str, String, Vec<N>),
    K(String, Vec<(String, Vec<N>)>),
}

fn tag(d: &mut Dev) -> &'static str {
    if d.opt() {
        match rt::choice(2) {
            0 => "@supports ",
            _ => "@container ",
        }
    } else {
        "@media "
    }
}
fn attr(d: &mut Dev, n: u32) -> N {
    const K: [&str; 5] = ["a", "b", "c-d", "--e", "f"];
    const V: [&str; 5] = ["1px", "x y", "w(2)", "z", "u"];
    N::A(ident(d, K[n as usize % 5]), value(d, V[n as usize % 5]))
}
fn sels(d: &mut Dev, n: u32) -> Vec<String> {
    const S: [&str; 4] = [".p", "q r", "&:s", "t"];
    let mut v = vec![selector(d, S[n as usize % 4])];
    if d.opt() {
        v.push(selector(d, "u v"));
        if rt::flag() {
            v.push(selector(d, ".w"));
        }
    }
    v
}
/// contents of a block (or of an at-rule inside a block)
fn inner(d: &mut Dev, budget: &mut u32, depth: u32) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 {
        match rt::choice(if depth > 0 { 3 } else { 2 }) {
            0 => break,
            1 => {
                *budget -= 1;
                v.push(attr(d, *budget));
            }
            _ => {
                *budget -= 1;
                let t = tag(d);
                let c = cond(d, "n");
                v.push(N::R(t, c, inner(d, budget, depth - 1)));
            }
        }
    }
    v
}
/// contents of a sheet (or of an at-rule outside blocks)
pub fn scope(d: &mut Dev, budget: &mut u32, depth: u32) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 {
        match rt::choice(if depth > 0 { 5 } else { 3 }) {
            0 => break,
            1 => {
                *budget -= 1;
                v.push(attr(d, *budget));
            }
            2 => {
                *budget -= 1;
                let s = sels(d, *budget);
                v.push(N::B(s, inner(d, budget, depth.saturating_sub(1))));
            }
            3 => {
                *budget -= 1;
                let t = tag(d);
                let c = cond(d, "m");
                v.push(N::R(t, c, scope(d, budget, depth - 1)));
            }
            _ => {
                *budget -= 1;
                let name = ident(d, "kf");
                let mut frames = vec![];
                while *budget > 0 && frames.len() < 2 {
                    if !rt::flag() {
                        break;
                    }
                    *budget -= 1;
                    let f = if d.leaf() {
                        match rt::choice(3) {
                            0 => of(b"0123456789", 1) + "%",
                            1 => "0%, 50%".to_string(),
                            _ => "to".to_string(),
                        }
                    } else {
                        "from".to_string()
                    };
                    frames.push((f, inner(d, budget, 0)));
                }
                v.push(N::K(name, frames));
            }
        }
    }
    v
}

fn gap(d: &mut Dev, o: &mut String) {
    if !d.gap() {
        return;
    }
    rt::cover("gap");
    if let Some(f) = &d.fill {
        o.push_str(&f.1);
        return;
    }
    fn body(o: &mut String, n: usize) {
        let b: Vec<u8> = (0..n).map(|_| rt::from(COMMENT)).collect();
        for i in 1..b.len() {
            rt::assume(!((b[i - 1] == b'*') & (b[i] == b'/')));
        }
        o.push_str("/*");
        o.push_str(&st(b));
        o.push_str("*/");
    }
    match rt::choice(6) {
        0 => o.push_str(&of(WS, 1)),
        1 => o.push_str(&of(WS, 2)),
        2 => body(o, 2),
        3 => {
            o.push_str(&of(WS, 1));
            body(o, 1);
            o.push_str(&of(WS, 1));
        }
        4 => {
            body(o, 0);
            body(o, 1);
        }
        _ => {
            o.push_str("/*");
            o.push_str(&wide());
            o.push_str("*/");
        }
    }
}
/// trivia that the text of a selector or condition precedes: white space only
fn wgap(d: &mut Dev, o: &mut String) {
    if d.gap() {
        rt::cover("wgap");
        if let Some(f) = &d.fill {
            o.push_str(&f.2);
            return;
        }
        if rt::flag() {
            o.push_str(&of(WS, 1));
        }
        o.push_str(&of(WS, 1));
    }
}
fn p_attr(d: &mut Dev, o: &mut String, k: &str, v: &str, semi: bool) {
    o.push_str(k);
    gap(d, o);
    o.push(':');
    gap(d, o);
    o.push_str(v);
    gap(d, o);
    if semi {
        o.push(';');
        gap(d, o);
    }
}
fn p_inner(d: &mut Dev, o: &mut String, v: &[N]) {
    for (i, n) in v.iter().enumerate() {
        match n {
            N::A(k, x) => {
                let last = matches!(v.get(i + 1), None);
                let semi = !last || !d.opt();
                p_attr(d, o, k, x, semi);
            }
            N::R(t, c, v) => {
                o.push_str(t);
                wgap(d, o);
                o.push_str(c);
                wgap(d, o);
                o.push('{');
                gap(d, o);
                p_inner(d, o, v);
                o.push('}');
                gap(d, o);
            }
            _ => unreachable!(),
        }
    }
}
pub fn print(d: &mut Dev, o: &mut String, v: &[N]) {
    for n in v {
        match n {
            N::A(k, x) => p_attr(d, o, k, x, true),
            N::B(s, c) => {
                for (i, x) in s.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                        gap(d, o);
                    }
                    o.push_str(x);
                    wgap(d, o);
                }
                if d.opt() {
                    o.push(',');
                    gap(d, o);
                }
                o.push('{');
                gap(d, o);
                p_inner(d, o, c);
                o.push('}');
                gap(d, o);
            }
            N::R(t, c, v) => {
                o.push_str(t);
                wgap(d, o);
                o.push_str(c);
                wgap(d, o);
                o.push('{');
                gap(d, o);
                print(d, o, v);
                o.push('}');
                gap(d, o);
            }
            N::K(name, f) => {
                o.push_str("@keyframes ");
                wgap(d, o);
                o.push_str(name);
                wgap(d, o);
                o.push('{');
                gap(d, o);
                for (s, c) in f {
                    o.push_str(s);
                    wgap(d, o);
                    o.push('{');
                    gap(d, o);
                    p_inner(d, o, c);
                    o.push('}');
                    gap(d, o);
                }
                o.push('}');
                gap(d, o);
            }
        }
    }
}
/// text of the sheet, with trivia at the deviating site
pub fn text(d: &mut Dev, v: &[N]) -> String {
    let mut o = String::new();
    gap(d, &mut o);
    print(d, &mut o, v);
    o
}

fn frag(s: &str) -> StringFragment {
    s.to_string().into()
}
fn sa(k: &str, v: &str) -> StyleAttribute {
    StyleAttribute { key: k.to_string().into(), value: vec![frag(v)].into() }
}
fn e_inner(v: &[N]) -> Vec<RuleBlockContent> {
    v.iter()
        .map(|n| match n {
            N::A(k, v) => RuleBlockContent::StyleAttr(sa(k, v)),
            N::R(t, c, v) => RuleBlockContent::Rule(Bow::Boxed(Box::new(Rule {
                condition: vec![frag(t), frag(c)].into(),
                content: e_inner(v).into(),
            }))),
            // a block of its own, but without a selector of its own
            N::B(s, v) if s.is_empty() => RuleBlockContent::Block(Bow::Boxed(Box::new(Block {
                condition: vec![].into(),
                content: e_inner(v).into(),
            }))),
            _ => unreachable!(),
        })
        .collect()
}
pub fn expect(v: &[N]) -> Vec<ScopeContent> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            N::A(..) => {
                let mut c = vec![];
                while let Some(N::A(k, x)) = v.get(i) {
                    c.push(RuleBlockContent::StyleAttr(sa(k, x)));
                    i += 1;
                }
                out.push(ScopeContent::Block(Block { condition: Cow::Borrowed(&[]), content: c.into() }));
                continue;
            }
            N::B(s, c) => out.push(ScopeContent::Block(Block {
                condition: s.iter().map(|x| Selector::from(vec![frag(x)])).collect::<Vec<_>>().into(),
                content: e_inner(c).into(),
            })),
            N::R(t, c, v) => out.push(ScopeContent::Rule(Rule {
                condition: vec![frag(t), frag(c)].into(),
                content: expect(v)
                    .into_iter()
                    .map(|m| match m {
                        ScopeContent::Block(m) => RuleBlockContent::Block(Bow::Boxed(Box::new(m))),
                        ScopeContent::Rule(m) => RuleBlockContent::Rule(Bow::Boxed(Box::new(m))),
                    })
                    .collect::<Vec<_>>()
                    .into(),
            })),
            N::K(name, f) => out.push(ScopeContent::Rule(Rule {
                condition: vec![frag("@keyframes "), frag(name)].into(),
                content: f
                    .iter()
                    .map(|(s, c)| {
                        RuleBlockContent::Rule(Bow::Boxed(Box::new(Rule {
                            condition: vec![frag(s)].into(),
                            content: e_inner(c).into(),
                        })))
                    })
                    .collect::<Vec<_>>()
                    .into(),
            })),
        }
        i += 1;
    }
    out
}
pub fn sheet(v: &[N]) -> Sheet {
    Sheet::from(expect(v))
}
