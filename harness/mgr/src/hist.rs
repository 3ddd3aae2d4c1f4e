//! C08, C09, C10, C11: histories of creating, cloning, dropping and
//! unregistering styles in one or more managers, against a model.
use crate::model::*;
use crate::rt;
use stylist::manager::{render_static, StaticReader, StyleManager};
use stylist::{GlobalStyle, Style, StyleSource};

struct Man {
    m: Option<StyleManager>,
    reader: Option<StaticReader>,
    /// what is registered: spec and id
    reg: Vec<(Spec, String)>,
    /// every registration ever made, in order
    all: Vec<(Spec, String)>,
}
struct Held {
    man: usize,
    spec: Spec,
    id: String,
    text: String,
    h: H,
}
struct World {
    tag: &'static str,
    men: Vec<Man>,
    held: Vec<Option<Held>>,
}
impl World {
    fn new(tag: &'static str, men: Vec<Man>) -> World {
        World { tag, men, held: vec![] }
    }
    fn create(&mut self, man: usize, spec: &Spec, form: u32) {
        let m = match &self.men[man].m {
            Some(m) => m.clone(),
            None => return,
        };
        let t = self.tag;
        let h = match spec.create(&m, form) {
            Ok(h) => h,
            Err(_) => rt::fail("creation of an accepted style failed"),
        };
        let (id, text) = (h.id(), h.text());
        let known = self.men[man].reg.iter().find(|r| r.0.same(&m, spec)).map(|r| r.1.clone());
        match known {
            Some(k) => {
                rt::cover("again");
                check!(k == id, format_tag(t, "an equal registered style is not returned"), "{spec:?} was {k} is {id}");
            }
            None => {
                rt::cover("fresh");
                check!(
                    self.men.iter().all(|m| m.all.iter().all(|r| r.1 != id)),
                    format_tag(t, "a different style shares a registration"),
                    "{spec:?} got {id}"
                );
                self.men[man].reg.push((spec.clone(), id.clone()));
                self.men[man].all.push((spec.clone(), id.clone()));
            }
        }
        check!(id_fits(&id, spec, &m), format_tag(t, "id does not carry the prefix"), "{spec:?} {id}");
        check!(text == spec.rendered(&id), format_tag(t, "text is not the style's own"), "{spec:?} {id}: {text}");
        rt::emit(id.as_bytes());
        self.held.push(Some(Held { man, spec: spec.clone(), id, text, h }));
    }
    fn clone_handle(&mut self, i: usize) {
        if let Some(Some(x)) = self.held.get(i) {
            let c = Held { man: x.man, spec: x.spec.clone(), id: x.id.clone(), text: x.text.clone(), h: x.h.clone() };
            self.held.push(Some(c));
        }
    }
    fn drop_handle(&mut self, i: usize) {
        if i < self.held.len() {
            self.held[i] = None;
        }
    }
    fn unregister(&mut self, i: usize) {
        if let Some(Some(x)) = self.held.get(i) {
            x.h.unregister();
            let man = &mut self.men[x.man];
            if man.reg.iter().any(|r| r.1 == x.id) {
                rt::cover("unregistered");
            } else {
                rt::cover("stale");
            }
            let id = &x.id;
            man.reg.retain(|r| r.1 != *id);
        }
    }
    fn drop_manager(&mut self, i: usize) {
        self.men[i].m = None;
        self.men[i].reg.clear();
    }
    /// every handle still reads as at its creation
    fn handles(&self) {
        for x in self.held.iter().flatten() {
            check!(x.h.id() == x.id && x.h.text() == x.text, format_tag(self.tag, "a handle changed"), "{:?}", x.spec);
        }
    }
    /// every registered style is still returned, everything else is fresh
    fn registered(&mut self) {
        for man in 0..self.men.len() {
            if self.men[man].m.is_none() {
                continue;
            }
            let all: Vec<Spec> = self.men[man].all.iter().map(|r| r.0.clone()).collect();
            for s in all {
                self.create(man, &s, 0);
            }
        }
        self.handles();
    }
    /// the exported data names exactly the registrations made, in order
    fn exported(&mut self) {
        for x in &mut self.men {
            if let Some(r) = x.reader.take() {
                let mut s = String::new();
                r.read_style_data().write_static_markup(&mut s).expect("writes");
                let mut want = String::new();
                for (spec, id) in &x.all {
                    want.push_str("<style data-style=\"");
                    want.push_str(id);
                    want.push_str("\">");
                    want.push_str(&spec.rendered(id));
                    want.push_str("</style>");
                }
                check!(s == want, format_tag(self.tag, "export differs from what was registered"), "{s} instead of {want}");
            }
        }
    }
}
fn format_tag(tag: &'static str, m: &'static str) -> &'static str {
    if rt::native() {
        Box::leak(format!("{tag} {m}").into_boxed_str())
    } else {
        m
    }
}
fn plain(prefix: Option<String>) -> Man {
    let mut b = StyleManager::builder();
    if let Some(p) = prefix {
        b = b.prefix(p.into());
    }
    Man { m: Some(b.build().expect("builds")), reader: None, reg: vec![], all: vec![] }
}
fn writing(prefix: Option<String>) -> Man {
    let (w, r) = render_static();
    let mut b = StyleManager::builder().writer(w);
    if let Some(p) = prefix {
        b = b.prefix(p.into());
    }
    Man { m: Some(b.build().expect("builds")), reader: Some(r), reg: vec![], all: vec![] }
}
fn default_man() -> Man {
    Man { m: Some(StyleManager::default()), reader: None, reg: vec![], all: vec![] }
}
fn any_man() -> Man {
    match rt::choice(3) {
        0 => plain(None),
        1 => writing(None),
        _ => default_man(),
    }
}
fn any_prefix() -> String {
    match rt::choice(5) {
        0 => String::new(),
        1 => of(b"aA-_0 .", 1),
        2 => of(b"aAzZ-_09 .", 2),
        3 => "p".to_string() + &of(b"aA-_ ", 1) + "q",
        _ => ["\u{e9}", "e\u{301}", "\u{c9}", "\u{3000}", "\u{df}", "SS"][rt::choice(6) as usize].to_string(),
    }
}
pub fn number() -> u32 {
    const N: [u32; 25] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 256, 257];
    N[rt::fork(25) as usize]
}
/// the n-th of many styles, all different
pub fn numbered(i: u32, symbolic: bool) -> Spec {
    let leaf = if symbolic { "z".to_string() + &of(b"abcxyzABC-_", 1) } else { format!("x{i}") };
    let global = i % 4 == 1;
    Spec { global, prefix: if !global && i % 5 == 2 { Some("q".into()) } else { None }, shape: i % SHAPES, leaf }
}
/// one arbitrary step of a history
fn step(w: &mut World, n: u32) {
    match rt::choice(n) {
        0 | 1 => {
            let spec = Spec { global: rt::flag(), prefix: None, shape: 0, leaf: of(b"ab", 1) };
            let man = if w.men.len() > 1 { rt::choice(w.men.len() as u32) as usize } else { 0 };
            w.create(man, &spec, 0);
        }
        2 => {
            let i = rt::choice(3) as usize;
            w.unregister(i);
        }
        3 => {
            let i = rt::choice(3) as usize;
            w.drop_handle(i);
        }
        4 => {
            let i = rt::choice(2) as usize;
            w.clone_handle(i);
        }
        _ => w.drop_manager(0),
    }
    w.handles();
}

fn gone(before: u32, after: u32) {
    let mut w = World::new("C11", vec![any_man()]);
    for _ in 0..before {
        step(&mut w, 2);
    }
    for _ in 0..after {
        step(&mut w, 6);
    }
    w.registered();
    w.exported();
}

harnesses! {
fn c08_many() {
    // any number of styles of all kinds, one with a symbolic character, each created again
    let mut w = World::new("C08", vec![writing(None)]);
    let n = number();
    let k = [0, n / 2, n - 1][rt::fork(3) as usize];
    for i in 0..n { w.create(0, &numbered(i, i == k), i % FORMS); }
    w.registered();
    w.exported();
}
fn c10_many() {
    // any number of styles in two managers by turns
    let mut w = World::new("C10", vec![writing(Some("p".into())), writing(if rt::flag() { Some("p".into()) } else { None })]);
    let n = number();
    for i in 0..n { w.create((i % 2) as usize, &numbered(i / 3, false), 0); }
    let k = rt::fork(3) as usize * (n as usize - 1) / 2;
    w.unregister(k);
    w.registered();
    w.exported();
}
fn c11_many() {
    // any of any number of styles unregistered, its handle or another's dropped
    let mut w = World::new("C11", vec![writing(None)]);
    let n = number();
    for i in 0..n { w.create(0, &numbered(i, false), 0); }
    let k = rt::fork(3) as usize * (n as usize - 1) / 2;
    match rt::fork(4) {
        0 => w.unregister(k),
        1 => for i in 0..n as usize { if i != k { w.unregister(i) } },
        2 => for i in 0..n as usize { w.drop_handle(i) },
        _ => for i in (0..n as usize).rev() { if i >= k { w.unregister(i); w.drop_handle(i) } },
    }
    w.handles();
    w.registered();
    w.exported();
}
fn c08_pair() {
    let mut w = World::new("C08", vec![any_man()]);
    let (a, b) = (Spec::any(SHAPES), Spec::any(SHAPES));
    w.create(0, &a, 0);
    w.create(0, &b, 0);
    w.create(0, &a, 0);
    w.handles();
    w.exported();
}
fn c08_forms() {
    let mut w = World::new("C08", vec![writing(None)]);
    let a = Spec::any(SHAPES);
    let (f, g) = (rt::choice(FORMS), rt::choice(FORMS));
    w.create(0, &a, f);
    let b = Spec { leaf: of(b"ab", 1), ..a.clone() };
    w.create(0, &b, g);
    w.create(0, &a, g);
    w.handles();
    w.exported();
}
fn c08_four() {
    let mut w = World::new("C08", vec![plain(None)]);
    for _ in 0..4 {
        let s = Spec::any(1);
        w.create(0, &s, 0);
    }
    w.handles();
}
fn c08_prefixes() {
    // prefixes that only differ in how they run into the rest
    let p = || match rt::choice(4) { 0 => of(b"p-", 1), 1 => of(b"p-", 2), 2 => "p-global".to_string(), _ => "stylist".to_string() };
    let mut w = World::new("C08", vec![plain(if rt::flag() { Some("p".to_string()) } else { None })]);
    for _ in 0..2 {
        let global = rt::flag();
        let s = Spec { global, prefix: if global || rt::flag() { None } else { Some(p()) }, shape: 0, leaf: "a".into() };
        w.create(0, &s, 0);
    }
    w.registered();
}
fn c08_anyprefix() {
    // two prefixes of any characters, in either place
    let p = any_prefix();
    let q = any_prefix();
    let mut w = World::new("C08", vec![plain(if rt::flag() { Some(p.clone()) } else { None })]);
    for x in [p, q] {
        let s = Spec { global: false, prefix: Some(x), shape: 0, leaf: "a".into() };
        w.create(0, &s, 0);
    }
    let global = rt::flag();
    w.create(0, &Spec::simple(global, "a"), 0);
    w.registered();
}
fn c08_texts() {
    // two styles whose texts are nearly the same
    let mut w = World::new("C08", vec![plain(None)]);
    let shape = rt::choice(SHAPES);
    let (global, other) = (rt::flag(), rt::flag());
    let l = |p: &str| match rt::choice(3) { 0 => format!("{p}{}", of(b"aAbB-_09", 2)), 1 => format!("{p}{}a", of(b"aA-_0", 1)), _ => format!("{p}a{}", ["\u{e9}", "e\u{301}", "\u{130}", "i", "ss", "\u{df}"][rt::choice(6) as usize]) };
    let (a, b) = (l("x"), l("x"));
    w.create(0, &Spec { global, prefix: None, shape, leaf: a }, 0);
    w.create(0, &Spec { global: other, prefix: None, shape, leaf: b }, 0);
    w.registered();
}
fn c08_failed() {
    // a creation that fails, by rejection or by a corrupt value, registers nothing
    let mut w = World::new("C08", vec![writing(None)]);
    let a = Spec::simple(rt::flag(), "a");
    if rt::flag() { w.create(0, &a, 0); }
    let m = w.men[0].m.clone().unwrap();
    let k = rt::choice(4);
    let glob = rt::flag();
    let bad: String = match k {
        0 => "c:".to_string() + &of(b"{};", 2),
        1 => of(b"{}@", 1) + "c:a;",
        2 => "c:a".to_string() + &of(b"{}\"", 1),
        _ => of(b"{}/", 2),
    };
    let bad2 = bad.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if rt::flag() {
            // as an interpolated value of a stylesheet that was not parsed
            use stylist_core::ast::*;
            let s = Sheet::from(vec![ScopeContent::Block(Block { condition: vec![].into(), content: vec![
                RuleBlockContent::StyleAttr(StyleAttribute { key: "c".into(), value: vec![StringFragment { inner: bad2.into() }].into() })].into() })]);
            if glob { GlobalStyle::new_with_manager(s, m.clone()).is_ok() } else { Style::new_with_manager(s, m.clone()).is_ok() }
        } else if glob { GlobalStyle::new_with_manager(bad2, m.clone()).is_ok() }
        else { Style::new_with_manager(bad2, m.clone()).is_ok() }
    }));
    if !matches!(r, Ok(true)) {
        rt::cover("failed");
        if r.is_err() { rt::cover("panicked"); }
        w.create(0, &a, 1);
        w.create(0, &Spec::simple(!a.global, "b"), 0);
        w.registered();
        w.exported();
    }
}
fn c09_format() {
    symbolic_draws();
    let m = if rt::flag() { StyleManager::default() } else { StyleManager::builder().prefix(any_prefix().into()).build().expect("builds") };
    let s = Spec { global: rt::flag(), prefix: if rt::flag() { Some(any_prefix()) } else { None }, shape: 0, leaf: "a".into() };
    let s = if s.global { Spec { prefix: None, ..s } } else { s };
    let h = s.create(&m, 0).expect("creates");
    let id = h.id();
    check!(id_fits(&id, &s, &m), "C09 id is not prefix and eight alphanumeric characters", "{s:?} {id}");
    if let H::S(x) = &h {
        check!(x.get_class_name() == id, "C09 class name is not the id", "{} {id}", x.get_class_name());
        check!(h.text().contains(&format!(".{id} ")), "C09 text does not use the class name", "{}", h.text());
    }
    check!(draws().len() >= 1, "C09 id does not come from the random source", "{id}");
    rt::emit(id.as_bytes());
}
fn c09_distinct() {
    symbolic_draws();
    let m = StyleManager::builder().build().expect("builds");
    let a = Spec::simple(rt::flag(), "a").create(&m, 0).expect("creates");
    let n = draws().len();
    let b = Spec::simple(rt::flag(), "b").create(&m, 0).expect("creates");
    let d = draws();
    let (x, y) = (a.id(), b.id());
    if x.as_bytes()[x.len() - 8..] == y.as_bytes()[y.len() - 8..] {
        rt::cover("equal suffixes");
        // one character cannot tell draws apart that are closer than 1/62
        let near = n >= 1 && d.len() == 2 * n && (0..n).all(|i| d[i].abs_diff(d[i + n]) <= 5);
        check!(near, "C09 equal suffixes though the source did not repeat", "{x} {y} {d:?}");
    }
    rt::emit(x.as_bytes());
    rt::emit(y.as_bytes());
}
fn c09_source() {
    // the suffix is a function of the draws alone
    symbolic_draws();
    let m = StyleManager::builder().build().expect("builds");
    let a = Spec::simple(rt::flag(), "a").create(&m, 0).expect("creates");
    repeat_draws(0);
    let b = Spec::simple(rt::flag(), "b").create(&m, 0).expect("creates");
    let (x, y) = (a.id(), b.id());
    check!(x.as_bytes()[x.len() - 8..] == y.as_bytes()[y.len() - 8..], "C09 suffix does not come from the source alone", "{x} {y}");
    rt::emit(x.as_bytes());
}
fn c10_two() {
    // histories over two managers, equal or different prefixes
    let second = if rt::flag() { Some(of(b"pq", 1)) } else { None };
    let mut w = World::new("C10", vec![writing(if rt::flag() { Some("p".into()) } else { None }), writing(second)]);
    for _ in 0..3 { step(&mut w, 3); }
    w.registered();
    w.exported();
}
fn c10_default() {
    // the default manager, a manager of its own and a copy of it
    let mut w = World::new("C10", vec![default_man(), plain(None)]);
    let copy = w.men[1].m.clone().unwrap();
    check!(copy == *w.men[1].m.as_ref().unwrap() && copy != StyleManager::default(), "C10 clones of a manager differ");
    check!(StyleManager::default() == StyleManager::default(), "C10 default managers differ");
    for _ in 0..2 { step(&mut w, 3); }
    // a copy holds and returns the same styles
    w.men[1].m = Some(copy);
    let s = Spec { global: rt::flag(), prefix: None, shape: 0, leaf: of(b"ab", 1) };
    w.create(1, &s, 0);
    w.registered();
}
fn c10_source() {
    // a style source bound to a manager by the caller's manager argument
    let mut w = World::new("C10", vec![plain(Some("p".into())), plain(Some("q".into()))]);
    let s = Spec::simple(rt::flag(), "a");
    let src: StyleSource = s.text().parse().expect("accepted");
    for _ in 0..2 {
        let man = rt::choice(2) as usize;
        let m = w.men[man].m.clone().unwrap();
        let h = if s.global { H::G(GlobalStyle::new_with_manager(src.clone(), m.clone()).expect("creates")) } else { H::S(Style::new_with_manager(src.clone(), m.clone()).expect("creates")) };
        check!(id_fits(&h.id(), &s, &m), "C10 id lacks the manager's prefix", "{}", h.id());
        match w.men[man].reg.iter().find(|r| r.0.same(&m, &s)) {
            Some(r) => check!(r.1 == h.id(), "C10 an equal registered style is not returned"),
            None => { let id = h.id(); w.men[man].reg.push((s.clone(), id.clone())); w.men[man].all.push((s.clone(), id)); }
        }
    }
    w.registered();
}
fn c11_history4() {
    let mut w = World::new("C11", vec![plain(None)]);
    for _ in 0..4 { step(&mut w, 5); }
    w.registered();
}
fn c11_history5() {
    // created twice at least, then anything
    let mut w = World::new("C11", vec![plain(None)]);
    w.create(0, &Spec::simple(false, "a"), 0);
    w.create(0, &Spec::simple(rt::flag(), "b"), 0);
    for _ in 0..3 { step(&mut w, 4); }
    w.registered();
}
fn c11_manager_gone() { gone(2, 2); }
fn c11_manager_gone3() { gone(2, 3); }
fn c11_deep5() {
    let mut w = World::new("C11", vec![plain(None)]);
    for _ in 0..5 { step(&mut w, 5); }
    w.registered();
}
fn c10_deep4() {
    let mut w = World::new("C10", vec![writing(None), writing(None)]);
    for _ in 0..4 { step(&mut w, 3); }
    w.registered();
    w.exported();
}
}
