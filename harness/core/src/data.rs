//! C12, C15, C23: caching, serialisation, equality and hashing of stylesheets.
use crate::acct::dump;
use crate::gen::*;
use crate::rt;
use std::borrow::Cow;
use std::hash::{Hash, Hasher};
use stylist_core::ast::*;
use stylist_core::bow::Bow;

/// Rebuilds a stylesheet with borrowed or owned parts, by `mode`:
/// 0 owned, 1 borrowed, 2 and 3 alternating, 4 borrowed outside, 5 owned outside.
pub struct Repr {
    mode: u32,
    n: u32,
}
impl Repr {
    pub fn new(mode: u32) -> Repr {
        Repr { mode, n: 0 }
    }
    fn b(&mut self, outer: bool) -> bool {
        self.n += 1;
        match self.mode {
            0 => false,
            1 => true,
            2 => self.n % 2 == 0,
            3 => self.n % 2 == 1,
            4 => outer,
            _ => !outer,
        }
    }
    fn st(&mut self, s: &str) -> Cow<'static, str> {
        if self.b(false) {
            Cow::Borrowed(Box::leak(s.to_string().into_boxed_str()))
        } else {
            Cow::Owned(s.to_string())
        }
    }
    fn ls<T: Clone>(&mut self, v: Vec<T>) -> Cow<'static, [T]> {
        if self.b(true) {
            Cow::Borrowed(Box::leak(v.into_boxed_slice()))
        } else {
            Cow::Owned(v)
        }
    }
    fn bow<T>(&mut self, v: T) -> Bow<'static, T> {
        if self.b(true) {
            Bow::Borrowed(Box::leak(Box::new(v)))
        } else {
            Bow::Boxed(Box::new(v))
        }
    }
    fn frags(&mut self, f: &[StringFragment]) -> Cow<'static, [StringFragment]> {
        let v = f.iter().map(|f| StringFragment { inner: self.st(&f.inner) }).collect();
        self.ls(v)
    }
    fn content(&mut self, c: &[RuleBlockContent]) -> Cow<'static, [RuleBlockContent]> {
        let v = c
            .iter()
            .map(|c| match c {
                RuleBlockContent::StyleAttr(a) => {
                    let key = self.st(&a.key);
                    RuleBlockContent::StyleAttr(StyleAttribute { key, value: self.frags(&a.value) })
                }
                RuleBlockContent::Rule(r) => {
                    let r = self.rule(r);
                    RuleBlockContent::Rule(self.bow(r))
                }
                RuleBlockContent::Block(b) => {
                    let b = self.block(b);
                    RuleBlockContent::Block(self.bow(b))
                }
            })
            .collect();
        self.ls(v)
    }
    fn rule(&mut self, r: &Rule) -> Rule {
        let condition = self.frags(&r.condition);
        Rule { condition, content: self.content(&r.content) }
    }
    fn block(&mut self, b: &Block) -> Block {
        let v = b.condition.iter().map(|s| Selector { fragments: self.frags(&s.fragments) }).collect();
        let condition = self.ls(v);
        Block { condition, content: self.content(&b.content) }
    }
    pub fn sheet(&mut self, s: &[ScopeContent]) -> Sheet {
        let v: Vec<ScopeContent> = s
            .iter()
            .map(|c| match c {
                ScopeContent::Block(b) => ScopeContent::Block(self.block(b)),
                ScopeContent::Rule(r) => ScopeContent::Rule(self.rule(r)),
            })
            .collect();
        Sheet::from(self.ls(v))
    }
}
/// Records what is fed to a hasher.
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
pub fn fed(s: &Sheet) -> Vec<u8> {
    let mut r = Rec::default();
    s.hash(&mut r);
    r.0
}
fn modes() -> (u32, u32) {
    // every mode against owned, and both alternations against each other
    match rt::choice(7) {
        0 => (0, 0),
        1 => (0, 1),
        2 => (0, 2),
        3 => (3, 0),
        4 => (2, 3),
        5 => (4, 5),
        _ => (1, 2),
    }
}
fn compare(a: &Sheet, b: &Sheet) {
    let (da, db) = (dump(a), dump(b));
    if da == db {
        rt::cover("same");
        check!(a == b, "C23 equal contents compare unequal", "{a:?} {b:?}");
        check!(b == a, "C23 equal contents compare unequal", "{b:?} {a:?}");
        check!(fed(a) == fed(b), "C23 equal contents hash differently", "{a:?} {b:?}");
    } else {
        rt::cover("different");
        check!(a != b, "C23 different contents compare equal", "{a:?} {b:?}");
        check!(b != a, "C23 different contents compare equal", "{b:?} {a:?}");
    }
    rt::emit(&da);
}
/// one shape in which every text is one symbolic byte
fn tiny(which: u32) -> Vec<N> {
    let c = || of(b"abAB", 1);
    match which {
        0 => vec![N::A(c(), c())],
        1 => vec![N::B(vec![c(), c()], vec![N::A(c(), "v".into())])],
        2 => vec![N::R("@media ", c(), vec![N::A(c(), c())])],
        3 => vec![N::B(vec!["s".into()], vec![N::R("@media ", c(), vec![N::A(c(), c())])])],
        4 => vec![N::K(c(), vec![(c(), vec![N::A(c(), "v".into())])])],
        5 => vec![N::B(vec![c()], vec![]), N::B(vec![c()], vec![])],
        6 => vec![N::R("@media ", "m".into(), vec![N::B(vec![c()], vec![N::A(c(), c())])])],
        _ => vec![N::R("@media ", "m".into(), vec![N::R("@supports ", c(), vec![]), N::K(c(), vec![])])],
    }
}
fn frag_texts(n: u32) -> Vec<StringFragment> {
    (0..n).map(|_| StringFragment::from(of(b"ab", rt::choice(3) as usize))).collect()
}
fn any_sheet(budget: u32, devs: usize) -> Vec<N> {
    let mut d = Dev::new(devs, false, true, true);
    let mut b = budget;
    scope(&mut d, &mut b, 2)
}
fn json(s: &Sheet) -> Sheet {
    let t = serde_json::to_string(s).expect("serialises");
    rt::emit(t.as_bytes());
    serde_json::from_str(&t).expect("reads back")
}
fn binary(s: &Sheet) -> Sheet {
    let t = bincode::serialize(s).expect("serialises");
    rt::emit(&t);
    bincode::deserialize(&t).expect("reads back")
}
fn round(s: &Sheet, f: fn(&Sheet) -> Sheet) {
    let r = f(s);
    check!(dump(s) == dump(&r), "C15 contents changed by serialisation", "{s:?} -> {r:?}");
    check!(*s == r && fed(s) == fed(&r), "C15 read-back sheet not equal", "{s:?} -> {r:?}");
    check!(s.to_style_str(Some("K")) == r.to_style_str(Some("K")), "C15 read-back sheet renders differently", "{s:?}");
}
fn either() -> fn(&Sheet) -> Sheet {
    if rt::flag() {
        json
    } else {
        binary
    }
}

/// a short style string: optional space, key, value, end
fn short() -> String {
    let mut s = String::new();
    if rt::flag() {
        s.push(' ');
    }
    s.push_str(&of(b"aAb", 1));
    s.push(':');
    s.push_str(&of(b"xXy;", 1));
    match rt::choice(3) {
        0 => s.push(';'),
        1 => s.push_str(" ;"),
        _ => (),
    }
    s
}
/// parses, and checks against a differently written string of the same meaning
fn independent(s: &str, fresh: u32) -> Option<Sheet> {
    let r = s.parse::<Sheet>().ok();
    let same = format!("{s}/*{}*/", (b'0' + fresh as u8) as char);
    let q = same.parse::<Sheet>().ok();
    let ok = match (&r, &q) {
        (Some(a), Some(b)) => dump(a) == dump(b),
        (None, None) => true,
        _ => false,
    };
    check!(ok, "C12 result depends on earlier parses", "{s:?} -> {r:?}, {same:?} -> {q:?}");
    r
}
fn same(a: &Option<Sheet>, b: &Option<Sheet>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => dump(a) == dump(b),
        (None, None) => true,
        _ => false,
    }
}

harnesses! {
fn c12_two() {
    let (s, t) = (short(), short());
    let r1 = s.parse::<Sheet>().ok();
    let q1 = independent(&t, 0);
    let r2 = independent(&s, 1);
    let q2 = independent(&t, 2);
    check!(same(&r1, &r2) && same(&q1, &q2), "C12 repeated parse differs", "{s:?} {t:?}");
    if r1.is_some() && q1.is_some() { rt::cover("both accepted"); }
    if r1.is_none() { rt::cover("first rejected"); }
    if let Some(r) = &r1 { rt::emit(&dump(r)); }
}
fn c12_three() {
    // three strings that are pairwise equal, or differ in one byte or a suffix
    let a = "a{b:c}".to_string();
    let b = format!("{}{{b:c}}", of(b"aA.&", 1));
    let c = match rt::choice(4) {
        0 => format!("a{{b:c}}{}", of(b" ab:;{}", 2)),
        1 => format!("{}a{{b:c}}", of(b" ab:;{}", 1)),
        2 => format!("a{{b:{}}}", of(b"cCd;}", 2)),
        _ => format!("a{{b:c{}", of(b"};/", 1)),
    };
    let l = [a, b, c];
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][rt::choice(6) as usize];
    let mut first = vec![];
    for i in order { first.push(l[i].parse::<Sheet>().ok()); }
    for (n, i) in order.iter().enumerate() {
        let again = independent(&l[*i], n as u32);
        check!(same(&first[n], &again), "C12 repeated parse differs", "{l:?} {order:?}");
    }
    if first.iter().any(|r| r.is_none()) { rt::cover("one rejected"); }
}
fn c12_space() {
    // a string and the same with one character more, before, after or within it
    let base = ["a:b;", "a{b:c}", "@media a{b:c;}"][rt::choice(3) as usize];
    let n = 1 + rt::choice(3) as usize;
    let b = rt::bytes(n);
    let x = match std::str::from_utf8(&b) {
        Ok(s) if s.chars().count() == 1 => s,
        _ => return,
    };
    let i = [0, 1, base.len() - 1, base.len()][rt::choice(4) as usize];
    let t = format!("{}{x}{}", &base[..i], &base[i..]);
    let (f, g) = if rt::flag() { (base, t.as_str()) } else { (t.as_str(), base) };
    let r1 = f.parse::<Sheet>().ok();
    let q1 = independent(g, 0);
    let r2 = independent(f, 1);
    let q2 = g.parse::<Sheet>().ok();
    check!(same(&r1, &r2) && same(&q1, &q2), "C12 repeated parse differs", "{f:?} {g:?}");
    if r1.is_some() && q1.is_some() { rt::cover("both accepted"); }
    if r1.is_none() || q1.is_none() { rt::cover("one rejected"); }
}
fn c12_many() {
    // a string parsed again after any number of others, some of them rejected
    let n = match rt::fork(2) { 0 => crate::vocab::count(false), _ => [400, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025][rt::fork(10) as usize] };
    let text = |i: u32| if i % 3 == 2 { format!("a{i}:b") } else { format!("a{i}:b;") };
    let first: Vec<Option<Sheet>> = (0..n).map(|i| text(i).parse::<Sheet>().ok()).collect();
    for i in [0, 1, 2, n / 2, n - 1] {
        if i < n {
            let again = text(i).parse::<Sheet>().ok();
            check!(same(&first[i as usize], &again), "C12 repeated parse differs", "{:?}", text(i));
            check!(same(&independent(&text(i), i % 10), &again), "C12 repeated parse differs", "{:?}", text(i));
        }
    }
}
fn c12_long() {
    // strings of any length that differ in one character, the case of one, or in length
    let n = crate::vocab::count(true) as usize;
    let (p, s) = [(0, n), (n / 2, n - n / 2), (n, 0)][rt::fork(3) as usize];
    let x = |c: &str| format!("a:{}{c}{};", "x".repeat(p), "x".repeat(s));
    let (a, b) = (x(["x", "}"][rt::fork(2) as usize]), x(["X", "y", "", "xx", ";"][rt::fork(5) as usize]));
    let r = a.parse::<Sheet>().ok();
    let q = b.parse::<Sheet>().ok();
    check!(same(&independent(&b, 0), &q) && same(&independent(&a, 1), &r), "C12 repeated parse differs", "{a:?} {b:?}");
    if r.is_some() && q.is_some() { check!(r != q, "C12 another string's result", "{a:?} {b:?}"); }
}
fn c15_many() {
    let s = Repr::new(0).sheet(&expect(&crate::vocab::plain()));
    round(&s, if rt::fork(2) == 0 { json } else { binary });
}
fn c23_many() {
    // many parts, the same or one of them different, or one more
    let kind = rt::fork(crate::vocab::KINDS);
    let n = crate::vocab::count(kind > 10);
    let v = crate::vocab::part(kind, n, None);
    let w = match rt::fork(5) {
        0 => v.clone(),
        1 => crate::vocab::part(kind, n + 1, None),
        i => crate::vocab::part(kind, n, Some([0, n / 2, n - 1][i as usize - 2])),
    };
    compare(&Repr::new(0).sheet(&expect(&v)), &Repr::new(1).sheet(&expect(&w)));
}
fn c15_shapes() {
    let v = any_sheet(2, 1);
    let s = Repr::new(0).sheet(&expect(&v));
    round(&s, either());
}
fn c15_shapes3() {
    let v = any_sheet(3, 1);
    let s = Repr::new(0).sheet(&expect(&v));
    round(&s, either());
}
fn c15_repr() {
    let v = any_sheet(2, 0);
    let m = rt::choice(6);
    let s = Repr::new(m).sheet(&expect(&v));
    round(&s, either());
}
fn c15_text() {
    // arbitrary text in every kind of leaf
    let b = rt::bytes(2);
    let t = match std::str::from_utf8(&b) { Ok(t) => t.to_string(), Err(_) => return };
    rt::cover("text");
    let x = || "x".to_string();
    let v = match rt::choice(5) {
        0 => vec![N::A(t, x())],
        1 => vec![N::A(x(), t)],
        2 => vec![N::B(vec![x(), t], vec![])],
        3 => vec![N::R("@media ", t, vec![])],
        _ => vec![N::K(x(), vec![(t, vec![N::A(x(), x())])])],
    };
    let s = sheet(&v);
    round(&s, either());
}
fn c23_same_shape() {
    let k = rt::choice(8);
    let (v, w) = (tiny(k), tiny(k));
    let (m, n) = modes();
    compare(&Repr::new(m).sheet(&expect(&v)), &Repr::new(n).sheet(&expect(&w)));
}
fn c23_shapes() {
    let (v, w) = (any_sheet(2, 0), any_sheet(2, 0));
    let (m, n) = (rt::choice(2), rt::choice(3));
    compare(&Repr::new(m).sheet(&expect(&v)), &Repr::new(n).sheet(&expect(&w)));
}
fn c23_reprs() {
    let v = any_sheet(3, 0);
    let e = expect(&v);
    let (m, n) = modes();
    let (a, b) = (Repr::new(m).sheet(&e), Repr::new(n).sheet(&e));
    compare(&a, &b);
    let c = a.clone();
    compare(&c, &b);
    compare(&c, &Sheet::from(e));
}
fn c23_fragments() {
    let f = |v| Sheet::from(vec![ScopeContent::Block(Block {
        condition: vec![Selector::from(v)].into(), content: vec![].into() })]);
    let (n, m) = (rt::choice(3), rt::choice(3));
    compare(&f(frag_texts(n)), &f(frag_texts(m)));
}
}
