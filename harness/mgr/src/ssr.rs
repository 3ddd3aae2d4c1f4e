//! C13, C14, C15: static markup, hydration and transport of style data.
use crate::hist::{number, numbered};
use crate::model::*;
use crate::rt;
use stylist::manager::{render_static, StyleData, StyleManager};
use stylist_core::ast::*;

fn server(prefix: Option<String>) -> (StyleManager, stylist::manager::StaticReader) {
    let (w, r) = render_static();
    let mut b = StyleManager::builder().writer(w);
    if let Some(p) = prefix {
        b = b.prefix(p.into());
    }
    (b.build().expect("builds"), r)
}
fn client(prefix: Option<String>) -> StyleManager {
    let mut b = StyleManager::builder();
    if let Some(p) = prefix {
        b = b.prefix(p.into());
    }
    b.build().expect("builds")
}
fn markup(d: &StyleData) -> String {
    let mut s = String::new();
    d.write_static_markup(&mut s).expect("writes");
    s
}
/// Reads markup as a browser does: style elements with raw text, nothing else.
fn elements(m: &str) -> Option<Vec<(String, String)>> {
    let b = m.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        const OPEN: &[u8] = b"<style data-style=\"";
        if !b[i..].starts_with(OPEN) {
            return None;
        }
        i += OPEN.len();
        let s = i;
        while i < b.len() && b[i] != b'"' {
            i += 1;
        }
        let id = st(b[s..i].to_vec());
        if !b[i..].starts_with(b"\">") {
            return None;
        }
        i += 2;
        let s = i;
        loop {
            if i >= b.len() {
                return None;
            }
            if ends_here(&b[i..]) {
                break;
            }
            i += 1;
        }
        v.push((id, st(b[s..i].to_vec())));
        i += 7;
        if b[i] != b'>' {
            return None;
        }
        i += 1;
    }
    Some(v)
}
/// `</style` in any case, then white space, a slash or `>`
fn ends_here(b: &[u8]) -> bool {
    end_name(b) && b.len() > 7 && matches!(b[7], b'\t' | b'\n' | 0x0c | b'\r' | b' ' | b'/' | b'>')
}
fn end_name(b: &[u8]) -> bool {
    const N: &[u8] = b"</style";
    if b.len() < N.len() {
        return false;
    }
    for k in 0..N.len() {
        if b[k].to_ascii_lowercase() != N[k] {
            return false;
        }
    }
    true
}
fn contains_end(t: &str) -> bool {
    let b = t.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'<' && end_name(&b[i..]) {
            return true;
        }
    }
    false
}
fn value_sheet(v: String) -> Sheet {
    Sheet::from(vec![ScopeContent::Block(Block {
        condition: vec![].into(),
        content: vec![RuleBlockContent::StyleAttr(StyleAttribute { key: "content".into(), value: vec![StringFragment { inner: v.into() }].into() })].into(),
    })])
}
fn unbreakable(value: String) {
    let (m, r) = server(None);
    let glob = rt::flag();
    let first = value_sheet(value);
    let h = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if glob {
            H::G(stylist::GlobalStyle::new_with_manager(first, m.clone()).expect("creates"))
        } else {
            H::S(stylist::Style::new_with_manager(first, m.clone()).expect("creates"))
        }
    }));
    let h = match h {
        Ok(h) => h,
        Err(_) => return,
    };
    let g = Spec::simple(false, "z").create(&m, 0).expect("creates");
    let s = markup(&r.read_style_data());
    let e = elements(&s);
    check!(e.is_some(), "C13 style text changes the markup around it", "{s:?}");
    let e = e.unwrap();
    // comment delimiters may be escaped as well
    let hit = contains_end(&h.text()) || h.text().contains("<!--");
    check!(
        e.len() == 2 && e[0].0 == h.id() && e[1].0 == g.id() && e[1].1 == g.text() && (hit || e[0].1 == h.text()),
        "C13 style text changes the markup around it",
        "{s:?}"
    );
    if hit {
        rt::cover("end in text");
    } else {
        rt::cover("harmless");
    }
    rt::emit(s.as_bytes());
}
/// through the network and back
fn transport(d: StyleData, how: u32) -> StyleData {
    match how {
        0 => d.clone(),
        1 => {
            let t = serde_json::to_string(&d).expect("serialises");
            serde_json::from_str(&t).expect("reads back")
        }
        _ => {
            let t = bincode::serialize(&d).expect("serialises");
            bincode::deserialize(&t).expect("reads back")
        }
    }
}
fn hydrate(specs: &[Spec], prefix: Option<String>, how: u32, again: bool) {
    let (m, r) = server(prefix.clone());
    let mut made: Vec<(Spec, String, String)> = vec![];
    for s in specs {
        let h = s.create(&m, 0).expect("creates");
        made.push((s.clone(), h.id(), h.text()));
    }
    if again {
        // created once more after being unregistered: the last one counts
        let h = specs[0].create(&m, 0).expect("creates");
        h.unregister();
        let h = specs[0].create(&m, 0).expect("creates");
        for x in made.iter_mut() {
            if x.0.same(&m, &specs[0]) {
                x.1 = h.id();
                x.2 = h.text();
            }
        }
    }
    let d = r.read_style_data();
    let server_ids: Vec<String> = elements(&markup(&d)).expect("plain").into_iter().map(|e| e.0).collect();
    let d = transport(d, how);
    let c = client(prefix);
    c.load_style_data(&d);
    let other = Spec { global: rt::flag(), prefix: None, shape: 0, leaf: "n".into() };
    let o = other.create(&c, 0).expect("creates");
    check!(server_ids.iter().all(|i| *i != o.id()), "C14 a style not in the data is not fresh", "{}", o.id());
    let back = |made: &[(Spec, String, String)]| {
        for (s, id, text) in made {
            let h = s.create(&c, if how == 1 { 1 } else { 0 }).expect("creates");
            check!(h.id() == *id, "C14 a hydrated style has another id", "{s:?} {} instead of {id}", h.id());
            check!(h.text() == *text, "C14 a hydrated style has another text", "{s:?} {} instead of {text}", h.text());
            if let H::S(x) = &h {
                check!(x.get_class_name() == id, "C14 a hydrated style has another class");
            }
            rt::emit(id.as_bytes());
        }
    };
    if rt::flag() {
        back(&made);
    }
    c.load_style_data(&d);
    back(&made);
    let p = other.create(&c, 0).expect("creates");
    check!(p.id() == o.id() && p.text() == o.text(), "C14 loading again changed a style");
}

/// any creations and unregistrations, equal or not
fn history(steps: u32, shapes: u32) {
    let (m, r) = server(None);
    let mut want: Vec<(Spec, String, String)> = vec![];
    let mut held: Vec<H> = vec![];
    for _ in 0..steps {
        let s = Spec::any(shapes);
        let f = rt::choice(2);
        let h = s.create(&m, f).expect("creates");
        if !want.iter().any(|w| w.1 == h.id()) {
            want.push((s, h.id(), h.text()));
        } else {
            rt::cover("again");
        }
        held.push(h);
        if rt::flag() { held[0].unregister(); }
    }
    let s = markup(&r.read_style_data());
    let e = elements(&s).expect("well formed");
    check!(e.len() == want.len(), "C13 not one element for each style", "{s}");
    for (x, w) in e.iter().zip(want.iter()) {
        check!(x.0 == w.1, "C13 elements are not in order of registration", "{s}");
        check!(x.1 == w.2 && x.1 == w.0.rendered(&w.1), "C13 element does not carry the style's text", "{s}");
    }
    rt::emit(s.as_bytes());
}

harnesses! {
fn c13_many() {
    // any number of styles, some created again or unregistered
    let (m, r) = server(None);
    let n = number();
    let mut want = vec![];
    let k = [0, n / 2, n - 1][rt::fork(3) as usize];
    for i in 0..n {
        let s = numbered(i, i == k);
        let h = s.create(&m, 0).expect("creates");
        let again = s.create(&m, 1).expect("creates");
        check!(again.id() == h.id(), "C13 an equal style is registered again");
        want.push((h.id(), s.rendered(&h.id())));
        if i % 7 == 3 { h.unregister() }
    }
    let s = markup(&r.read_style_data());
    check!(elements(&s).as_ref() == Some(&want), "C13 markup differs from the styles registered", "{s}");
    rt::emit(s.as_bytes());
}
fn c13_long() {
    // the end of a style element anywhere in a text of any length
    let n = match rt::fork(4) { 0 => number(), 1 => 127 + rt::fork(3), 2 => 1010 + rt::fork(20), _ => 4085 + rt::fork(14) } as usize;
    let e = "<".to_string() + &of(b"/!", 1) + ["style>", "--"][rt::fork(2) as usize];
    unbreakable(format!("\"{}{e}{}\"", "x".repeat(n), if rt::fork(2) == 0 { e.clone() + "y" } else { String::new() }));
}
fn c14_many() {
    let n = number();
    let v: Vec<Spec> = (0..n).map(|i| numbered(i, i == n / 2)).collect();
    let how = rt::fork(3);
    hydrate(&v, None, how, rt::fork(2) == 1);
}
fn c15_many_data() {
    // style data of any number of styles
    let (m, r) = server(None);
    let n = number();
    let made: Vec<(Spec, String)> = (0..n).map(|i| { let s = numbered(i, i + 1 == n); let h = s.create(&m, 0).expect("creates"); (s, h.id()) }).collect();
    let d = r.read_style_data();
    let e = transport(d.clone(), rt::fork(2) + 1);
    let ids = |d: &StyleData| elements(&markup(d)).expect("plain").into_iter().map(|e| e.0).collect::<Vec<_>>();
    check!(ids(&d) == ids(&e), "C15 style data changes when read back", "{d:?} {e:?}");
    let c = client(None);
    c.load_style_data(&e);
    for (s, id) in &made {
        check!(s.create(&c, 0).expect("creates").id() == *id, "C15 style data loses a kind, prefix or stylesheet", "{s:?}");
    }
    rt::emit(markup(&e).as_bytes());
}
fn c13_history() { history(2, 2); }
fn c13_history3() { history(3, 1); }
fn c13_history4() { history(4, 1); }
fn c13_end() {
    // every way to write the end of a style element, in a string
    let mut v = "\"".to_string();
    match rt::choice(4) { 0 => (), 1 => v.push('<'), 2 => v.push_str("</"), _ => v.push_str("</style") }
    v.push_str("</");
    v.push_str(&of(b"sS", 1)); v.push_str(&of(b"tT", 1)); v.push_str(&of(b"yY", 1)); v.push_str(&of(b"lL", 1)); v.push_str(&of(b"eE", 1));
    v.push_str(&of(b"> \t\n\x0c/a<\\!", 1));
    v.push_str(&of(b"><=/", 1));
    v.push('"');
    unbreakable(v);
}
fn c13_chars() {
    // any text over the characters that matter
    let n = rt::choice(3) as usize + 6;
    let s = of(b"</sStTyYlLeE >!-", n);
    unbreakable(format!("\"{s}\""));
}
fn c13_anywhere() {
    // outside strings: selectors, keys, conditions and values
    let e = "</".to_string() + &of(b"sS", 1) + "tyl" + &of(b"eE", 1) + &of(b">/ ", 1);
    let (m, r) = server(None);
    let t = match rt::choice(4) {
        0 => format!("a{e}b{{c:d;}}"),
        1 => format!("c:{e};"),
        2 => format!("@media {e}{{c:d;}}"),
        _ => format!("@keyframes {e}{{from{{c:d}}}}"),
    };
    let h = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| stylist::Style::new_with_manager(t.as_str(), m.clone()))) { Ok(Ok(h)) => h, _ => return };
    rt::cover("accepted");
    let s = markup(&r.read_style_data());
    let e = elements(&s);
    check!(e.as_ref().map_or(false, |e| e.len() == 1 && e[0].0 == h.get_class_name()), "C13 style text changes the markup around it", "{s:?}");
    rt::emit(s.as_bytes());
}
fn c14_shapes() {
    let s = Spec::any(SHAPES);
    let how = rt::choice(3);
    let prefix = if rt::flag() { Some("p".to_string()) } else { None };
    hydrate(&[s], prefix, how, false);
}
fn c14_three() {
    let mut v = vec![];
    for _ in 0..rt::choice(2) + 2 { v.push(Spec::any(1)); }
    let how = rt::choice(3);
    hydrate(&v, None, how, false);
}
fn c14_again() {
    let v = [Spec::any(2), Spec::any(1)];
    let how = rt::choice(3);
    hydrate(&v, None, how, true);
}
fn c14_partial() {
    // data of two servers, loaded one after the other
    let (a, b) = (Spec::any(1), Spec::any(1));
    let (m, r) = server(None);
    let x = a.create(&m, 0).expect("creates");
    let d = r.read_style_data();
    let (m2, r2) = server(None);
    let y = b.create(&m2, 0).expect("creates");
    let d2 = r2.read_style_data();
    let c = client(None);
    rt::assume(!a.same(&c, &b));
    c.load_style_data(&d);
    let h = a.create(&c, 0).expect("creates");
    c.load_style_data(&d2);
    let g = b.create(&c, 0).expect("creates");
    check!(h.id() == x.id() && h.text() == x.text() && g.id() == y.id() && g.text() == y.text(), "C14 a hydrated style differs from the server's", "{a:?} {b:?}");
    rt::emit(g.text().as_bytes());
}
fn c15_data() {
    // style data keeps number, order, ids, kinds, prefixes and stylesheets
    let (m, r) = server(None);
    let n = rt::choice(3);
    let mut made = vec![];
    for i in 0..n {
        let s = Spec::any(if i == 0 { SHAPES } else { 1 });
        let h = s.create(&m, 0).expect("creates");
        made.push((s, h.id()));
    }
    let d = r.read_style_data();
    let how = rt::choice(2) + 1;
    let e = transport(d.clone(), how);
    let ids = |d: &StyleData| elements(&markup(d)).expect("plain").into_iter().map(|e| e.0).collect::<Vec<_>>();
    check!(ids(&d) == ids(&e), "C15 style data changes number, order or ids", "{d:?} {e:?}");
    check!(serde_json::to_string(&d).unwrap() == serde_json::to_string(&e).unwrap(), "C15 style data changes when read back", "{d:?} {e:?}");
    check!(bincode::serialize(&d).unwrap() == bincode::serialize(&e).unwrap(), "C15 style data changes when read back", "{d:?} {e:?}");
    let c = client(None);
    c.load_style_data(&e);
    for (s, id) in &made {
        check!(s.create(&c, 0).expect("creates").id() == *id, "C15 style data loses a kind, prefix or stylesheet", "{s:?}");
    }
    rt::emit(serde_json::to_string(&e).unwrap().as_bytes());
}
}
