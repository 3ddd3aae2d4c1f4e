//! C25: style elements in the document.
use crate::model::*;
use crate::rt;
use stylist::manager::{render_static, StyleManager};
use stylist::{GlobalStyle, Style};
use web_sys::model::{children, dump, page, shadow};
use web_sys::{Element, JsCast, Node};

fn document() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}
fn element(tag: &str, parent: &Node) -> Element {
    let e = document().create_element(tag).unwrap();
    parent.append_child(&e).unwrap();
    e
}
/// A place for styles, with what it contained before.
struct Place {
    node: Node,
    before: Vec<Node>,
    /// appended: whether new styles come last
    append: bool,
}
struct Reg {
    man: usize,
    spec: Spec,
    id: String,
    text: String,
    registered: bool,
    handles: Vec<H>,
    /// false: the element came with the page
    mounted: bool,
}
impl Reg {
    fn alive(&self) -> bool {
        self.registered || !self.handles.is_empty()
    }
}
fn is_style(n: &Node, r: &Reg) -> bool {
    match n.dyn_ref::<Element>() {
        Some(e) => e.local_name() == "style" && e.get_attribute("data-style").as_deref() == Some(&r.id) && e.text_content().as_deref() == Some(&r.text),
        None => false,
    }
}
fn consistent(places: &[Place], of: &[usize], regs: &[Reg]) {
    for (i, p) in places.iter().enumerate() {
        let mut want: Vec<Option<&Reg>> = p.before.iter().map(|_| None).collect();
        for r in regs.iter().filter(|r| of[r.man] == i && r.alive() && r.mounted) {
            if p.append {
                want.push(Some(r));
            } else {
                want.insert(0, Some(r));
            }
        }
        let got = children(&p.node);
        check!(got.len() == want.len(), "C25 style elements lost, left behind or duplicated", "{}", dump(&p.node));
        let mut b = p.before.iter();
        for (g, w) in got.iter().zip(want) {
            match w {
                None => check!(Some(g) == b.next(), "C25 position of a style element", "{}", dump(&p.node)),
                Some(r) => check!(is_style(g, r), "C25 style element", "{} {} in {}", r.id, r.text, dump(&p.node)),
            }
        }
    }
    // nothing elsewhere
    let html = document().document_element().unwrap();
    let all = document().query_selector_all("style").unwrap();
    for i in 0..all.length() {
        let p = all.item(i).unwrap().parent_node().unwrap();
        check!(places.iter().any(|x| x.node == p), "C25 style element outside of the container", "{}", dump(&html));
    }
}
fn create(men: &[Option<StyleManager>], regs: &mut Vec<Reg>, man: usize, spec: Spec) {
    let m = men[man].as_ref().unwrap();
    let h = spec.create(m, 0).expect("creates");
    match regs.iter_mut().find(|r| r.man == man && r.registered && r.spec.same(m, &spec)) {
        Some(r) => {
            check!(r.id == h.id(), "C25 an equal style is registered again", "{spec:?}");
            r.handles.push(h);
        }
        None => {
            let (id, text) = (h.id(), h.text());
            regs.push(Reg { man, spec, id, text, registered: true, handles: vec![h], mounted: true });
        }
    }
}
/// Any history of k operations on the managers.
fn history(k: usize, places: Vec<Place>, mut men: Vec<Option<StyleManager>>, of: Vec<usize>, droppable: usize) {
    let mut regs: Vec<Reg> = vec![];
    steps(k, &places, &mut men, &of, droppable, &mut regs);
    rt::emit(dump(&document()).as_bytes());
}
fn steps(k: usize, places: &[Place], men: &mut [Option<StyleManager>], of: &[usize], droppable: usize, regs: &mut Vec<Reg>) {
    consistent(places, of, regs);
    for _ in 0..k {
        match rt::choice(4) {
            0 => {
                let live: Vec<usize> = (0..men.len()).filter(|m| men[*m].is_some()).collect();
                if live.is_empty() {
                    break;
                }
                let man = live[rt::choice(live.len() as u32) as usize];
                let spec = Spec { global: rt::flag(), prefix: None, shape: 0, leaf: of_leaf() };
                create(men, regs, man, spec);
            }
            op @ (1 | 2) => {
                let held: Vec<usize> = (0..regs.len()).filter(|r| !regs[*r].handles.is_empty()).collect();
                if held.is_empty() {
                    break;
                }
                let r = &mut regs[held[rt::choice(held.len() as u32) as usize]];
                if op == 1 {
                    r.handles[0].unregister();
                    if men[r.man].is_some() {
                        if r.registered {
                            rt::cover("unregistered");
                        }
                        r.registered = false;
                    }
                } else {
                    r.handles.pop();
                    if !r.alive() {
                        rt::cover("gone");
                    }
                }
            }
            _ => {
                if men[droppable].take().is_none() {
                    break;
                }
                for r in regs.iter_mut().filter(|r| r.man == droppable) {
                    r.registered = false;
                }
                rt::cover("manager dropped");
            }
        }
        consistent(places, of, regs);
    }
}
fn of_leaf() -> String {
    crate::model::of(b"ab", 1)
}
fn div_place(append: bool, existing: u32) -> Place {
    let d = element("div", &document().body().unwrap());
    for i in 0..existing {
        if i == 0 {
            d.append_child(&document().create_text_node("text")).unwrap();
        } else {
            element("p", &d);
        }
    }
    Place { before: children(&d), node: d.into(), append }
}
fn manager(p: &Place) -> StyleManager {
    let b = StyleManager::builder().prefix("p".into()).container(p.node.clone());
    // appending is the default
    if p.append { b } else { b.append(false) }.build().expect("builds")
}
fn head_place() -> Place {
    let h: Node = document().head().unwrap().into();
    element("link", &h);
    Place { before: children(&h), node: h, append: true }
}
fn one_container(k: usize) {
    page(true);
    let p = div_place(rt::flag(), rt::choice(3));
    let men = vec![Some(manager(&p))];
    history(k, vec![p], men, vec![0], 0);
}
harnesses! {
    /// the default manager and one with a container of its own
    fn c25_history3() { page(true); let h = head_place(); let p = div_place(rt::flag(), 1); let m = manager(&p);
        history(3, vec![h, p], vec![Some(StyleManager::default()), Some(m)], vec![0, 1], 1) }
    fn c25_history4() { page(true); let h = head_place(); let p = div_place(rt::flag(), 1); let m = manager(&p);
        history(4, vec![h, p], vec![Some(StyleManager::default()), Some(m)], vec![0, 1], 1) }
    fn c25_container4() { one_container(4) }
    fn c25_container5() { one_container(5) }
    fn c25_container6() { one_container(6) }
    /// two managers of one container
    fn c25_shared4() { page(true); let p = div_place(true, 1); let (a, b) = (manager(&p), manager(&p));
        history(4, vec![p], vec![Some(a), Some(b)], vec![0, 0], 1) }
    /// a container that is no part of the document: a shadow root or a detached element
    fn c25_detached4() {
        page(true);
        let n = if rt::flag() { shadow() } else { document().create_element("div").unwrap().into() };
        n.append_child(&document().create_text_node("t")).unwrap();
        let p = Place { before: children(&n), node: n, append: rt::flag() };
        let m = manager(&p);
        history(4, vec![p], vec![Some(m)], vec![0], 0)
    }
    /// any number of styles, any one or all but one of them removed
    fn c25_many() {
        page(true);
        let p = vec![div_place(rt::flag(), 1)];
        let men = vec![Some(manager(&p[0]))];
        let of = [0];
        let mut regs = vec![];
        const N: [u32; 17] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 40, 65, 100, 129];
        let n = N[rt::fork(17) as usize];
        for i in 0..n {
            create(&men, &mut regs, 0, Spec { global: i % 3 == 1, prefix: None, shape: i % 5, leaf: format!("x{i}") });
        }
        consistent(&p, &of, &regs);
        for i in 0..n {
            create(&men, &mut regs, 0, Spec { global: i % 3 == 1, prefix: None, shape: i % 5, leaf: format!("x{i}") });
        }
        consistent(&p, &of, &regs);
        let k = (rt::fork(3) * (n - 1) / 2) as usize;
        let one = rt::fork(2) == 1;
        for (i, r) in regs.iter_mut().enumerate() {
            if (i == k) == one {
                r.handles[0].unregister();
                r.registered = false;
            }
        }
        consistent(&p, &of, &regs);
        regs.iter_mut().for_each(|r| r.handles.clear());
        consistent(&p, &of, &regs);
        rt::emit(dump(&p[0].node).as_bytes());
    }
    /// styles rendered on the server, loaded, used and removed
    fn c25_hydrated() {
        page(true);
        let (w, r) = render_static();
        let server = StyleManager::builder().writer(w).build().expect("builds");
        let specs: Vec<Spec> = (0..2).map(|i| Spec { global: rt::flag(), prefix: None, shape: 0, leaf: ["a", "b"][i].into() }).collect();
        let made: Vec<H> = specs.iter().map(|s| s.create(&server, 0).expect("creates")).collect();
        // styles of a server are not mounted
        check!(children(&document().head().unwrap()).is_empty(), "C25 a server's style is mounted", "{}", dump(&document()));
        let data = r.read_style_data();
        let expect: Vec<(String, String)> = made.iter().map(|h| (h.id(), h.text())).collect();
        drop(made);
        drop(server);
        // the page the server sent
        let h: Node = document().head().unwrap().into();
        element("link", &h);
        let mut before = children(&h);
        for (id, t) in &expect {
            let e = element("style", &h);
            e.set_attribute("data-style", id).unwrap();
            e.set_text_content(Some(t));
        }
        let m = StyleManager::new().expect("builds");
        m.load_style_data(&data);
        let all = children(&h);
        check!(all.len() == 3, "C25 loading styles changes the page", "{}", dump(&h));
        // used
        let hs: Vec<H> = specs.iter().map(|s| s.create(&m, 0).expect("creates")).collect();
        check!(children(&h) == all, "C25 a style of the page is mounted again", "{}", dump(&h));
        let new = Spec::simple(false, "c").create(&m, 0).expect("creates");
        check!(children(&h).len() == 4, "C25 a new style is not mounted", "{}", dump(&h));
        // removed
        let i = rt::choice(2) as usize;
        hs[i].unregister();
        check!(children(&h).len() == 4, "C25 a style in use is removed", "{}", dump(&h));
        let mut rest = all.clone();
        rest.remove(i + 1);
        let keep = hs.into_iter().enumerate().filter(|x| x.0 != i).map(|x| x.1).collect::<Vec<_>>();
        check!(children(&h)[..2] == rest[..], "C25 the wrong element is removed", "{}", dump(&h));
        check!(children(&h).len() == 3, "C25 an unregistered style stays in the page", "{}", dump(&h));
        drop(keep);
        check!(children(&h).len() == 3, "C25 a registered style is removed", "{}", dump(&h));
        new.unregister();
        drop(new);
        before.push(rest[1].clone());
        check!(children(&h) == before, "C25 the page after removing styles", "{}", dump(&h));
        rt::emit(dump(&h).as_bytes());
    }
    /// a style that cannot be mounted is an error and leaves nothing behind
    fn c25_failing() {
        page(true);
        let b = document().body().unwrap();
        let t: Node = document().create_text_node("t").into();
        b.append_child(&t).unwrap();
        let append = rt::flag();
        let m = StyleManager::builder().container(t).append(append).build().expect("builds");
        let page_before = dump(&document());
        for _ in 0..2 {
            let ok = if rt::flag() { Style::new_with_manager("a:b;", m.clone()).is_ok() } else { GlobalStyle::new_with_manager("a:b;", m.clone()).is_ok() };
            check!(!ok, "C25 a style that is not mounted is returned", "");
            check!(dump(&document()) == page_before, "C25 a failed creation changes the page", "{}", dump(&document()));
        }
        // other managers still work
        let h = Style::new_with_manager("a:b;", StyleManager::default()).expect("creates");
        check!(children(&document().head().unwrap()).len() == 1, "C25 style lost after a failed creation", "{}", h.get_class_name());
        page(false);
        check!(StyleManager::new().is_err(), "C25 a manager without a document", "");
        rt::emit(page_before.as_bytes());
    }
}
