//! C05-C07: rendering of stylesheets.
use crate::gen::*;
use crate::rt;
use stylist_core::ast::*;
use stylist_core::bow::Bow;

/// What a rendered text says: every declaration with the conditions around it,
/// and the chain of every block that holds nothing.
#[derive(PartialEq, Debug, Default)]
pub struct Said {
    pub decls: Vec<(Vec<String>, String)>,
    pub empty: Vec<Vec<String>>,
    pub balanced: bool,
}
/// Reads rendered text whose leaves contain no braces or semicolons outside strings.
pub fn read(t: &str) -> Said {
    let mut s = Said { balanced: true, ..Default::default() };
    let mut stack: Vec<String> = vec![];
    let mut used: Vec<bool> = vec![];
    let mut cur = String::new();
    let (mut string, mut escaped) = (false, false);
    for c in t.chars() {
        if string {
            cur.push(c);
            string = escaped || c != '"';
            escaped = !escaped && c == '\\';
            continue;
        }
        match c {
            '"' => {
                string = true;
                cur.push(c);
            }
            '{' => {
                if let Some(u) = used.last_mut() {
                    *u = true;
                }
                stack.push(cur.trim_matches(WSC).to_string());
                used.push(false);
                cur.clear();
            }
            '}' => {
                if !cur.trim_matches(WSC).is_empty() {
                    s.balanced = false;
                }
                cur.clear();
                match used.pop() {
                    None => s.balanced = false,
                    Some(u) => {
                        if !u {
                            s.empty.push(stack.clone());
                        }
                        stack.pop();
                    }
                }
            }
            ';' => {
                if let Some(u) = used.last_mut() {
                    *u = true;
                }
                s.decls.push((stack.clone(), cur.trim_matches(WSC).to_string()));
                cur.clear();
            }
            c => cur.push(c),
        }
    }
    if !stack.is_empty() || !cur.trim_matches(WSC).is_empty() {
        s.balanced = false;
    }
    s
}
const WSC: &[char] = &[' ', '\t', '\r', '\n'];

/// The meaning of a selector in scope: `&` and `:root` are the class.
pub fn scoped(text: &str, cls: Option<&str>) -> String {
    let mut o = String::new();
    let mut found = false;
    let mut rest = text;
    let me = match cls {
        Some(c) => format!(".{c}"),
        None => ":root".to_string(),
    };
    while let Some(c) = rest.chars().next() {
        if c == '&' {
            o.push_str(&me);
            found = true;
        } else if cls.is_some() && rest.starts_with(":root") {
            o.push_str(&me);
            found = true;
            rest = &rest[5..];
            continue;
        } else {
            o.push(c);
        }
        rest = &rest[c.len_utf8()..];
    }
    if found || cls.is_none() {
        return o;
    }
    if text.starts_with(':') {
        me + text
    } else {
        me + " " + text
    }
}

fn want_inner(v: &[N], rules: &[String], sel: Option<&str>, s: &mut Said) {
    for n in v {
        match n {
            N::A(k, x) => {
                let mut c = rules.to_vec();
                c.extend(sel.map(str::to_string));
                s.decls.push((c, format!("{k}: {x}")));
            }
            N::R(t, c, v) => {
                let mut r = rules.to_vec();
                r.push(format!("{t}{c}"));
                want_inner(v, &r, sel, s);
            }
            N::B(l, v) if l.is_empty() => want_inner(v, rules, sel, s),
            _ => unreachable!(),
        }
    }
}
pub fn want(v: &[N], rules: &[String], cls: Option<&str>, s: &mut Said) {
    let own = match cls {
        Some(c) => format!(".{c}"),
        None => ":root".to_string(),
    };
    for n in v {
        match n {
            N::A(..) => want_inner(std::slice::from_ref(n), rules, Some(&own), s),
            N::B(sel, c) if sel.is_empty() => want_inner(c, rules, Some(&own), s),
            N::B(sel, c) => {
                let l: Vec<String> = sel.iter().map(|x| scoped(x, cls)).collect();
                want_inner(c, rules, Some(&l.join(", ")), s)
            }
            N::R(t, c, v) => {
                let mut r = rules.to_vec();
                r.push(format!("{t}{c}"));
                want(v, &r, cls, s);
            }
            N::K(name, f) => {
                let mut r = rules.to_vec();
                r.push(format!("@keyframes {name}"));
                let before = s.decls.len();
                for (x, c) in f {
                    let mut q = r.clone();
                    q.push(x.clone());
                    want_inner(c, &q, None, s);
                }
                if s.decls.len() == before {
                    s.empty.push(r);
                }
            }
        }
    }
}

/// shapes whose neighbouring conditions may be equal or different
struct G {
    budget: u32,
    n: u32,
    vary: bool,
    /// blocks without selectors, in themselves, in at-rules and in other blocks
    blocks: bool,
}
impl G {
    fn name(&mut self, a: &str, b: &str) -> String {
        if self.vary && rt::flag() {
            b.to_string()
        } else {
            a.to_string()
        }
    }
    fn attr(&mut self) -> N {
        self.n += 1;
        N::A(["a", "b", "c", "d", "e", "f", "g"][self.n as usize % 7].to_string(), "v".to_string())
    }
    fn inner(&mut self, depth: u32) -> Vec<N> {
        let mut v = vec![];
        while self.budget > 0 {
            match rt::choice(if depth > 0 { 3 + self.blocks as u32 } else { 2 }) {
                0 => break,
                1 => {
                    self.budget -= 1;
                    let a = self.attr();
                    v.push(a)
                }
                3 => {
                    self.budget -= 1;
                    v.push(N::B(vec![], self.inner(depth - 1)));
                }
                _ => {
                    self.budget -= 1;
                    let c = self.name("m", "n");
                    v.push(N::R("@media ", c, self.inner(depth - 1)));
                }
            }
        }
        v
    }
    fn scope(&mut self, depth: u32, kf: bool) -> Vec<N> {
        let mut v = vec![];
        while self.budget > 0 {
            match rt::choice(if depth > 0 { 4 + kf as u32 } else { 3 }) {
                0 => break,
                1 => {
                    self.budget -= 1;
                    let a = self.attr();
                    v.push(a)
                }
                2 => {
                    self.budget -= 1;
                    let s = if self.blocks && rt::flag() { vec![] } else { vec![self.name("p", "q:r")] };
                    v.push(N::B(s, self.inner(depth.saturating_sub(1))));
                }
                3 => {
                    self.budget -= 1;
                    let c = self.name("m", "n");
                    v.push(N::R("@media ", c, self.scope(depth - 1, kf)));
                }
                _ => {
                    self.budget -= 1;
                    let mut f = vec![];
                    while self.budget > 0 && rt::flag() {
                        self.budget -= 1;
                        f.push((self.name("from", "to"), self.inner(0)));
                    }
                    v.push(N::K("k".to_string(), f));
                }
            }
        }
        v
    }
}
fn structure(budget: u32, depth: u32, vary: bool, kf: bool, blocks: bool) {
    let mut g = G { budget, n: 0, vary, blocks };
    let v = g.scope(depth, kf);
    let cls = if rt::flag() { Some("K") } else { None };
    let s = sheet(&v);
    let t = s.to_style_str(cls);
    rt::emit(t.as_bytes());
    let got = read(&t);
    let mut w = Said { balanced: true, ..Default::default() };
    want(&v, &[], cls, &mut w);
    check!(got.balanced, "C07 unbalanced text", "{v:?} -> {t:?}");
    check!(got.decls == w.decls, "C07 declarations differ", "{v:?} -> {t:?}: {:?} expected {:?}", got.decls, w.decls);
    check!(got.empty == w.empty, "C07 empty blocks", "{v:?} -> {t:?}: {:?} expected {:?}", got.empty, w.empty);
    if !w.decls.is_empty() {
        rt::cover("declarations");
    }
    if !w.empty.is_empty() {
        rt::cover("empty keyframes");
    }
}
/// a block with one declaration under these selectors
fn one(sels: Vec<Selector>) -> Sheet {
    Sheet::from(vec![ScopeContent::Block(Block {
        condition: sels.into(),
        content: vec![RuleBlockContent::StyleAttr(StyleAttribute {
            key: "k".into(),
            value: vec!["v".into()].into(),
        })]
        .into(),
    })])
}
/// splits a text into one to three fragments
fn split(t: &str) -> Vec<StringFragment> {
    let n = t.len() as u32;
    let f = |s: &str| -> StringFragment { s.to_string().into() };
    match rt::choice(3) {
        0 => vec![f(t)],
        1 => {
            let i = rt::choice(n + 1) as usize;
            vec![f(&t[..i]), f(&t[i..])]
        }
        _ => {
            let i = rt::choice(n + 1) as usize;
            let j = i + (n as usize - i).min(1);
            vec![f(&t[..i]), f(&t[i..j]), f(&t[j..])]
        }
    }
}
fn check_selectors(texts: &[String], sels: Vec<Selector>, cls: Option<&str>, what: &str) {
    let t = one(sels).to_style_str(cls);
    rt::emit(t.as_bytes());
    let l: Vec<String> = texts.iter().map(|x| scoped(x, cls)).collect();
    let mut w = Said { balanced: true, ..Default::default() };
    w.decls.push((vec![l.join(", ").trim_matches(WSC).to_string()], "k: v".to_string()));
    let got = read(&t);
    check!(got == w, what, "{texts:?} as {cls:?} -> {t:?}, expected {:?}", w.decls);
}
/// text over the characters that matter to scoping
const SCOPE: &[u8] = b"&:root .";
fn seltext(n: usize) -> String {
    match rt::choice(4) {
        0 => of(SCOPE, n),
        1 => {
            // around one `:root`
            let i = rt::choice(3) as usize;
            of(b"&:r.o >a", i) + ":root" + &of(b"&:r.o >a", 2 - i)
        }
        2 => {
            // any printable selector characters
            of(SEL0, 1) + &of(b" &>+~:#.[]()*=^|", 1) + &of(SEL0, 1)
        }
        _ => ":root".to_string() + &of(b"&:r .", 1) + ":root" + &of(b"&:t ", 1),
    }
}
fn scoping(cls: Option<&str>, n: usize, what: &str) {
    let t = seltext(n);
    if t.contains('&') {
        rt::cover("ampersand");
    }
    let s = vec![Selector::from(vec![StringFragment::from(t.clone())])];
    check_selectors(&[t], s, cls, what);
}
fn lists(cls: Option<&str>, what: &str) {
    let n = 1 + rt::choice(3) as usize;
    let mut texts = vec![];
    for _ in 0..n {
        texts.push(match rt::choice(5) {
            0 => of(b"&:a.", 2),
            1 => "&.x &:y".to_string(),
            2 => ":hover".to_string(),
            3 => "a :root b".to_string(),
            _ => "q r".to_string(),
        });
    }
    let s = texts.iter().map(|t| Selector::from(vec![StringFragment::from(t.clone())])).collect();
    check_selectors(&texts, s, cls, what);
}
/// selectors, values and conditions with `&` and `:root`: only selectors change
fn untouched(cls: Option<&str>, what: &str) {
    let sym = of(b"&:ro", 2);
    let which = rt::choice(6);
    let pick = |i: u32, d: &str| if which == i { sym.clone() } else { d.to_string() };
    let val = pick(0, "&:root");
    let key = pick(1, "--root");
    let c1 = pick(2, "& :root");
    let c2 = pick(3, ":root&");
    let name = pick(4, "kf");
    let frame = pick(5, "from");
    let v = vec![
        N::A(key.clone(), val.clone()),
        N::R("@media ", c1.clone(), vec![
            N::A("b".into(), val.clone()),
            N::B(vec!["p &".into(), "s".into()], vec![
                N::A(key, val.clone()),
                N::R("@supports ", c2, vec![N::A("d".into(), val.clone())]),
                N::A("d2".into(), "w".into()),
            ]),
        ]),
        N::K(name, vec![(frame, vec![N::A("e".into(), val.clone())])]),
    ];
    let t = sheet(&v).to_style_str(cls);
    rt::emit(t.as_bytes());
    let mut w = Said { balanced: true, ..Default::default() };
    want(&v, &[], cls, &mut w);
    let got = read(&t);
    check!(got == w, what, "{v:?} -> {t:?}: {:?} expected {:?}", got, w);
}
fn rendered(v: &[N], cls: Option<&str>, what: &str) {
    let t = sheet(v).to_style_str(cls);
    rt::emit(t.as_bytes());
    let mut w = Said { balanced: true, ..Default::default() };
    want(v, &[], cls, &mut w);
    let got = read(&t);
    check!(got == w, what, "{v:?} -> {t:?}: {got:?} expected {w:?}");
}
const C05: &str = "C05 selector not scoped as specified";
const C06: &str = "C06 global selector not as specified";

harnesses! {
fn c05_text() { scoping(Some("K-1"), 6, C05) }
fn c05_class() {
    let c = of(IDENT0, 1) + &of(IDENT, 2);
    let t = match rt::choice(4) {
        0 => "&:x &".to_string(),
        1 => ":root>a:root".to_string(),
        2 => ":y".to_string(),
        _ => "z".to_string(),
    };
    let s = vec![Selector::from(vec![StringFragment::from(t.clone())])];
    check_selectors(&[t], s, Some(&c), C05);
    let own = one(vec![]).to_style_str(Some(&c));
    check!(read(&own).decls == vec![(vec![format!(".{c}")], "k: v".to_string())], C05, "{own:?}");
}
fn c05_split() {
    let t = match rt::choice(4) {
        0 => ":root".to_string(),
        1 => "a:root&".to_string(),
        2 => "& b".to_string(),
        _ => of(b"&:a", 3),
    };
    let s = vec![Selector::from(split(&t))];
    check_selectors(&[t], s, Some("K"), C05);
}
fn c05_lists() { lists(Some("K"), C05) }
fn c05_words() { rendered(&crate::vocab::words(true), Some("K"), C05) }
fn c05_many() { rendered(&crate::vocab::many(), Some("K"), C05) }
fn c05_untouched() { untouched(Some("K"), C05) }
fn c06_text() { scoping(None, 6, C06) }
fn c06_lists() {
    lists(None, C06);
    let own = one(vec![]).to_style_str(None);
    check!(read(&own).decls == vec![(vec![":root".to_string()], "k: v".to_string())], C06, "{own:?}");
}
fn c06_words() { rendered(&crate::vocab::words(true), None, C06) }
fn c06_many() { rendered(&crate::vocab::many(), None, C06) }
fn c06_untouched() { untouched(None, C06) }
fn c07_many() { rendered(&crate::vocab::many(), if rt::flag() { Some("K") } else { None }, "C07 structure differs") }
fn c07_vary4() { structure(4, 3, true, true, false) }
fn c07_deep5() { structure(5, 4, false, true, false) }
fn c07_blocks4() { structure(4, 4, true, false, true) }
fn c07_blocks5() { structure(5, 5, true, false, true) }
fn c07_blocks6() { structure(6, 5, false, false, true) }
fn c07_inner6() {
    // one block with interleaved declarations and nested at-rules
    let mut g = G { budget: 6, n: 0, vary: true, blocks: false };
    let before = rt::choice(3);
    let mut v = vec![];
    if before == 1 { v.push(g.attr()); }
    if before == 2 { v.push(N::B(vec!["p".into()], vec![g.attr()])); }
    let c = g.inner(2);
    v.push(N::B(vec!["p".into()], c));
    let cls = Some("K");
    let t = sheet(&v).to_style_str(cls);
    rt::emit(t.as_bytes());
    let mut w = Said { balanced: true, ..Default::default() };
    want(&v, &[], cls, &mut w);
    let got = read(&t);
    check!(got == w, "C07 structure differs", "{v:?} -> {t:?}: {got:?} expected {w:?}");
}
fn c07_fragments() {
    // values, keys and conditions split over fragments are written back to back
    let f = |s: String| -> StringFragment { s.into() };
    let (a, b, c) = (of(VALUE, 1), of(VALUE, 2), of(VALUE, 1));
    let k = of(IDENT, 2);
    let (m, n) = (of(IDENT, 1), of(IDENT, 1));
    let s = Sheet::from(vec![ScopeContent::Rule(Rule {
        condition: vec![f("@media ".into()), f(m.clone()), f(n.clone())].into(),
        content: vec![RuleBlockContent::Block(Bow::Boxed(Box::new(Block {
            condition: vec![].into(),
            content: vec![RuleBlockContent::StyleAttr(StyleAttribute {
                key: k.clone().into(),
                value: vec![f(a.clone()), f(b.clone()), f(c.clone())].into(),
            })].into(),
        })))].into(),
    })]);
    let t = s.to_style_str(Some("K"));
    rt::emit(t.as_bytes());
    let w = vec![(vec![format!("@media {m}{n}"), ".K".to_string()], format!("{k}: {a}{b}{c}"))];
    let got = read(&t);
    check!(got.balanced && got.decls == w, "C07 fragments", "{t:?}");
}
}
