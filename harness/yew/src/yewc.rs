//! C24: styles and style sources as component classes.
use crate::model::*;
use crate::rt;
use std::borrow::Cow;
use stylist::ast::Sheet;
use stylist::manager::{render_static, StyleManager};
use stylist::{Style, StyleSource};
use yew::html::{Classes, IntoPropValue};

fn source(s: &Spec, form: u32) -> StyleSource {
    match form {
        0 => s.text().parse::<Sheet>().expect("accepted").into(),
        1 => s.text2().parse::<StyleSource>().expect("accepted"),
        2 => s.text().try_into().expect("accepted"),
        3 => IntoPropValue::<StyleSource>::into_prop_value(s.text().as_str()),
        4 => IntoPropValue::<StyleSource>::into_prop_value(Cow::<str>::Owned(s.text2())),
        5 => IntoPropValue::<StyleSource>::into_prop_value(s.text()),
        _ => IntoPropValue::<StyleSource>::into_prop_value(s.text().parse::<Sheet>().expect("accepted")),
    }
}
fn scoped(shapes: u32) -> Spec {
    Spec { global: false, prefix: None, shape: rt::choice(shapes), leaf: of(b"ab", 1) }
}
fn list(c: &Classes) -> Vec<String> {
    let mut v = vec![];
    for x in c.clone().into_iter() {
        v.push(x.to_string());
    }
    v
}
/// the one class of these that belongs to a style of `m`
fn only_class(c: &Classes, class: &str, others: &[String]) {
    let l = list(c);
    check!(l.iter().filter(|x| **x == class).count() == 1, "C24 the style's class is missing", "{l:?} lacks {class}");
    // besides it there may only be a debugging location
    check!(l.len() <= 2, "C24 there are further classes", "{l:?}");
    for x in &l {
        if *x != class {
            check!(x.contains(".rs:") && others.iter().all(|o| o != x), "C24 another class hides the style's", "{l:?}");
        }
    }
    check!(c.to_string().split(' ').any(|x| x == class), "C24 the style's class is not rendered", "{}", c.to_string());
}

harnesses! {
fn c24_sources() {
    // two sources, each bound to one of three managers, in any form
    let (w, r) = render_static();
    let own = StyleManager::builder().prefix("p".into()).writer(w).build().expect("builds");
    let two = StyleManager::builder().prefix(if rt::flag() { "p" } else { "q" }.into()).build().expect("builds");
    let men = [StyleManager::default(), own, two];
    let mut made: Vec<(Spec, usize, String)> = vec![];
    let form = rt::choice(7);
    for i in 0..2 {
        let s = scoped(if i == 0 { 4 } else { 1 });
        let man = rt::choice(3) as usize;
        let mut src = source(&s, form);
        if man > 0 { src = src.with_manager(men[man].clone()); }
        let c: Classes = if rt::flag() { src.into() } else { src.into_prop_value() };
        // the style registered for that source
        let st = Style::new_with_manager(s.text().as_str(), men[man].clone()).expect("creates");
        let class = st.get_class_name().to_string();
        let others: Vec<String> = made.iter().map(|m| m.2.clone()).filter(|x| *x != class).collect();
        only_class(&c, &class, &others);
        check!(id_fits(&class, &s, &men[man]), "C24 class lacks the manager's prefix", "{class}");
        for (t, m, k) in &made {
            check!((*m == man && t.same(&men[man], &s)) == (*k == class), "C24 classes of equal or different sources", "{t:?} {s:?} {k} {class}");
        }
        if made.iter().any(|m| m.2 == class) { rt::cover("same class"); }
        made.push((s, man, class));
    }
    // registered with their own manager only
    let mut m = String::new();
    r.read_style_data().write_static_markup(&mut m).expect("writes");
    for (_, man, class) in &made {
        check!((*man == 1) == m.contains(class.as_str()), "C24 registered with another manager", "{class} {m}");
    }
    rt::emit(m.as_bytes());
}
fn c24_style() {
    let m = if rt::flag() { StyleManager::default() } else { StyleManager::builder().build().expect("builds") };
    let s = Spec { prefix: if rt::flag() { Some(of(b"pq", 2)) } else { None }, ..scoped(SHAPES) };
    let h = match s.create(&m, 0).expect("creates") { H::S(h) => h, _ => return };
    let o = Spec::simple(false, "z").create(&m, 0).expect("creates").id();
    let class = h.get_class_name().to_string();
    let c: Classes = if rt::flag() { h.clone().into() } else { h.clone().into_prop_value() };
    only_class(&c, &class, &[o]);
    check!(list(&c).len() == 1, "C24 there are further classes", "{c:?}");
    rt::emit(c.to_string().as_bytes());
}
fn c24_unregistered() {
    // a source names the style registered at the time
    let m = StyleManager::builder().build().expect("builds");
    let s = scoped(2);
    let src = source(&s, 0).with_manager(m.clone());
    let a: Classes = src.clone().into();
    let h = Style::new_with_manager(s.text(), m.clone()).expect("creates");
    only_class(&a, h.get_class_name(), &[]);
    h.unregister();
    let b: Classes = src.into();
    let g = Style::new_with_manager(s.text(), m.clone()).expect("creates");
    only_class(&b, g.get_class_name(), &[h.get_class_name().to_string()]);
    rt::emit(b.to_string().as_bytes());
}
}
