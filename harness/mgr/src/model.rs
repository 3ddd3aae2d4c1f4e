//! Styles to create, handles, the random source, and what is expected of them.
use crate::rt;
use std::borrow::Cow;
use stylist::ast::Sheet;
use stylist::manager::StyleManager;
use stylist::{GlobalStyle, Style, StyleSource};
use stylist_core::ast::*;

// ---- the random source (see ../../fastrand-sym)
static mut SYMBOLIC: bool = false;
static mut REPLAY: usize = usize::MAX;
static mut LOG: Vec<u8> = Vec::new();
static mut CTR: u64 = 0;
#[no_mangle]
pub extern "C" fn __fr_u64() -> u64 {
    unsafe {
        if !SYMBOLIC {
            CTR += 1;
            let mut z = CTR.wrapping_mul(0x9e37_79b9_7f4a_7c15);
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            return z ^ (z >> 31);
        }
        #[allow(static_mut_refs)]
        let b = if REPLAY < LOG.len() {
            REPLAY += 1;
            LOG[REPLAY - 1]
        } else {
            let b = rt::bytes(1)[0];
            LOG.push(b);
            b
        };
        (b as u64).wrapping_mul(0x0101_0101_0101_0101) ^ 0x20
    }
}
/// From now on every draw is an arbitrary value.
pub fn symbolic_draws() {
    unsafe { SYMBOLIC = true }
}
#[allow(static_mut_refs)]
pub fn draws() -> Vec<u8> {
    unsafe { LOG.clone() }
}
/// The next draws repeat the log from `at`.
pub fn repeat_draws(at: usize) {
    unsafe { REPLAY = at }
}

// ---- styles
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub global: bool,
    /// None: the manager's
    pub prefix: Option<String>,
    pub shape: u32,
    pub leaf: String,
}
pub fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn of(set: &[u8], n: usize) -> String {
    st((0..n).map(|_| rt::from(set)).collect())
}
pub const SHAPES: u32 = 6;
impl Spec {
    /// any style out of `shapes` shapes with one symbolic character and any prefix
    pub fn any(shapes: u32) -> Spec {
        let shape = rt::choice(shapes);
        let global = rt::flag();
        let prefix = if !global && rt::flag() { Some(of(b"pq", 1)) } else { None };
        Spec { global, prefix, shape, leaf: of(b"ab", 1) }
    }
    pub fn simple(global: bool, leaf: &str) -> Spec {
        Spec { global, prefix: None, shape: 0, leaf: leaf.to_string() }
    }
    pub fn text(&self) -> String {
        let l = &self.leaf;
        match self.shape {
            0 => format!("c:{l};"),
            1 => format!(".{l}, d{{c:d;}}"),
            2 => format!("@media {l}{{c:d;}}"),
            3 => format!("@keyframes {l}{{from{{c:d;}}}}"),
            4 => format!("e{{f:g;}}h{{c:{l};@media i{{j:k;}}}}"),
            _ => format!("{l}{{}}"),
        }
    }
    /// the same style, written differently
    pub fn text2(&self) -> String {
        let l = &self.leaf;
        match self.shape {
            0 => format!(" c : {l} /*x*/;"),
            1 => format!(".{l},d,{{ c:d }}"),
            2 => format!("@media {l} {{/**/c:d ;}}"),
            3 => format!("@keyframes {l} {{ from {{c:d}} }}"),
            4 => format!("e {{f:g}} h {{c:{l};;@media i {{j:k}} }}").replace(";;", ";"),
            _ => format!("\n{l} {{ }}"),
        }
    }
    /// the stylesheet, built without the parser from parts of its own
    pub fn sheet(&self, borrowed: bool) -> Sheet {
        fn s(b: bool, t: &str) -> Cow<'static, str> {
            if b {
                Cow::Borrowed(Box::leak(t.to_string().into_boxed_str()))
            } else {
                t.to_string().into()
            }
        }
        let f = |t: &str| StringFragment { inner: s(borrowed, t) };
        let attr = |k: &str, v: &str| RuleBlockContent::StyleAttr(StyleAttribute { key: s(borrowed, k), value: vec![f(v)].into() });
        let sel = |t: &str| Selector { fragments: vec![f(t)].into() };
        let rule = |c: &str, v: Vec<RuleBlockContent>| Rule { condition: vec![f(c)].into(), content: v.into() };
        let block = |c: Vec<Selector>, v: Vec<RuleBlockContent>| Block { condition: c.into(), content: v.into() };
        let l = &self.leaf;
        let v: Vec<ScopeContent> = match self.shape {
            0 => vec![ScopeContent::Block(block(vec![], vec![attr("c", l)]))],
            1 => vec![ScopeContent::Block(block(vec![sel(&format!(".{l}")), sel("d")], vec![attr("c", "d")]))],
            2 => vec![ScopeContent::Rule(Rule {
                condition: vec![f("@media "), f(l)].into(),
                content: vec![RuleBlockContent::Block(stylist_core::bow::Bow::Boxed(Box::new(block(vec![], vec![attr("c", "d")]))))].into(),
            })],
            3 => vec![ScopeContent::Rule(Rule {
                condition: vec![f("@keyframes "), f(l)].into(),
                content: vec![RuleBlockContent::Block(stylist_core::bow::Bow::Boxed(Box::new(block(vec![sel("from")], vec![attr("c", "d")]))))].into(),
            })],
            4 => vec![
                ScopeContent::Block(block(vec![sel("e")], vec![attr("f", "g")])),
                ScopeContent::Block(block(
                    vec![sel("h")],
                    vec![attr("c", l), RuleBlockContent::Rule(stylist_core::bow::Bow::Boxed(Box::new(rule("@media i", vec![attr("j", "k")]))))],
                )),
            ],
            _ => vec![ScopeContent::Block(block(vec![sel(l)], vec![]))],
        };
        Sheet::from(v)
    }
    pub fn prefix_in(&self, m: &StyleManager) -> String {
        match &self.prefix {
            Some(p) => p.clone(),
            None => m.prefix().into_owned(),
        }
    }
    pub fn same(&self, m: &StyleManager, o: &Spec) -> bool {
        self.global == o.global && self.shape == o.shape && self.leaf == o.leaf && self.prefix_in(m) == o.prefix_in(m)
    }
    /// creates it in one of `FORMS` ways
    pub fn create(&self, m: &StyleManager, form: u32) -> stylist::Result<H> {
        match form {
            0 => self.go(m, self.text().as_str()),
            1 => self.go(m, self.text2()),
            2 => self.go(m, Cow::<str>::Owned(self.text())),
            3 => self.go(m, self.text().parse::<Sheet>().expect("accepted")),
            4 => self.go(m, self.text2().parse::<StyleSource>().expect("accepted")),
            5 => self.go(m, self.parsed_like(true)),
            _ => self.go(m, self.text().parse::<Sheet>().expect("accepted").clone()),
        }
    }
    /// a stylesheet equal to the parsed one, in another representation
    fn parsed_like(&self, borrowed: bool) -> Sheet {
        let p = self.text().parse::<Sheet>().expect("accepted");
        let q = self.sheet(borrowed);
        // how the parser cuts texts into fragments is its own affair
        if p == q {
            q
        } else {
            p
        }
    }
    fn go<C>(&self, m: &StyleManager, c: C) -> stylist::Result<H>
    where
        C: TryInto<StyleSource>,
        stylist::Error: From<C::Error>,
    {
        let d = *m == StyleManager::default();
        match (self.global, &self.prefix) {
            (true, _) if d => GlobalStyle::new(c).map(H::G),
            (true, _) => GlobalStyle::new_with_manager(c, m.clone()).map(H::G),
            (_, None) if d => Style::new(c).map(H::S),
            (_, None) => Style::new_with_manager(c, m.clone()).map(H::S),
            (_, Some(p)) if d => Style::create(p.clone(), c).map(H::S),
            (_, Some(p)) => Style::create_with_manager(p.clone(), c, m.clone()).map(H::S),
        }
    }
    /// what a style of this spec with this id reads
    pub fn rendered(&self, id: &str) -> String {
        let s = self.text().parse::<Sheet>().expect("accepted");
        s.to_style_str(if self.global { None } else { Some(id) })
    }
}
pub const FORMS: u32 = 7;

#[derive(Clone, Debug)]
pub enum H {
    S(Style),
    G(GlobalStyle),
}
impl H {
    pub fn id(&self) -> String {
        match self {
            H::S(s) => s.id().to_string(),
            H::G(s) => s.id().to_string(),
        }
    }
    pub fn text(&self) -> String {
        match self {
            H::S(s) => s.get_style_str().to_string(),
            H::G(s) => s.get_style_str().to_string(),
        }
    }
    pub fn unregister(&self) {
        match self {
            H::S(s) => s.unregister(),
            H::G(s) => s.unregister(),
        }
    }
}
/// `prefix-xxxxxxxx` or `prefix-global-xxxxxxxx`
#[cfg(not(feature = "counter"))]
pub fn id_fits(id: &str, spec: &Spec, m: &StyleManager) -> bool {
    let mut p = spec.prefix_in(m);
    p.push_str(if spec.global { "-global-" } else { "-" });
    id.len() == p.len() + 8 && id.as_bytes()[..p.len()] == *p.as_bytes() && id.as_bytes()[p.len()..].iter().all(|c| c.is_ascii_alphanumeric())
}
/// `prefix-style-n` or `prefix-global-style-n`
#[cfg(feature = "counter")]
pub fn id_fits(id: &str, spec: &Spec, m: &StyleManager) -> bool {
    let mut p = spec.prefix_in(m);
    p.push_str(if spec.global { "-global-style-" } else { "-style-" });
    id.len() > p.len() && id.as_bytes()[..p.len()] == *p.as_bytes() && id.as_bytes()[p.len()..].iter().all(|c| c.is_ascii_digit())
}
