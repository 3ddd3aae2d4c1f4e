//! C27: the styles of a component tree in the browser, over updates of the tree,
//! and taken over from the server.
use crate::rt;
use crate::tree::{text, tree, App, N, P};
use std::rc::Rc;
use stylist::ast::{Sheet, ToStyleStr};
use stylist::manager::{render_static, StyleManager};
use web_sys::model::{children, document, dump};
use web_sys::{Element, JsCast, Node};
use yew::prelude::*;

/// May be below a component that waits.
#[component(Root)]
fn root(p: &P) -> Html {
    html! { <Suspense><App n={p.n.clone()} men={p.men.clone()}/></Suspense> }
}
fn element(tag: &str, parent: &Node) -> Element {
    let e = document().create_element(tag).unwrap();
    parent.append_child(&e).unwrap();
    e
}
/// What a tree uses: managers and values of the elements with a class, in order, and of global styles.
fn uses(v: &[N], m: usize, shown: &mut Vec<(usize, String)>, global: &mut Vec<(usize, String)>) {
    for n in v {
        match n {
            N::Hook(x) | N::HookMacro(x) | N::Css(x) => shown.push((m, x.clone())),
            N::CssAround(x, c) => {
                shown.push((m, x.clone()));
                uses(c, m, shown, global);
            }
            N::Global(x) => global.push((m, x.clone())),
            N::Provider(k, c) => uses(c, *k, shown, global),
        }
    }
}
fn styles(place: &Node) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in children(place) {
        if let Some(e) = n.dyn_ref::<Element>() {
            if e.local_name() == "style" {
                v.push((e.get_attribute("data-style").unwrap_or_default(), e.text_content().unwrap_or_default()));
            }
        }
    }
    v
}
fn rendered(x: &str, id: Option<&str>) -> String {
    let s: Sheet = text(x).parse().expect("accepted");
    s.to_style_str(id)
}
/// ever: scoped styles used up to now
fn consistent(n: &[N], body: &Node, places: &[Node], ever: &mut [Vec<String>], what: &str) {
    let (mut shown, mut global) = (vec![], vec![]);
    uses(n, 0, &mut shown, &mut global);
    for (m, x) in &shown {
        if !ever[*m].contains(x) {
            ever[*m].push(x.clone());
        }
    }
    let mut ids: Vec<Vec<(String, String)>> = vec![];
    for (m, p) in places.iter().enumerate() {
        let mut s = styles(p);
        let mut mine = vec![];
        for x in &ever[m] {
            let i = s.iter().position(|(id, t)| *t == rendered(x, Some(id)));
            match i {
                Some(i) => mine.push((x.clone(), s.remove(i).0)),
                None => check!(false, "C27 style element missing", "{what} {n:?}: {} manager {m} {x}", dump(p)),
            }
        }
        for (g, x) in &global {
            if *g == m {
                let t = rendered(x, None);
                check!(s.iter().any(|s| s.1 == t), "C27 global style missing", "{what} {n:?}: {} manager {m} {x}", dump(p));
                rt::cover("global");
            }
        }
        // as many elements as mounted components at most
        for x in ["a", "b"] {
            let t = rendered(x, None);
            let mounted = global.iter().filter(|g| g.0 == m && g.1 == x).count();
            check!(s.iter().filter(|s| s.1 == t).count() <= mounted, "C27 global style stays", "{what} {n:?}: {} manager {m} {x}", dump(p));
            s.retain(|s| s.1 != t);
        }
        check!(s.is_empty(), "C27 style elements left", "{what} {n:?}: {} manager {m}", dump(p));
        ids.push(mine);
    }
    let out = dump(body);
    let classes = crate::tree::between(&out, "<i class=\"", "\"");
    check!(classes.len() == shown.len(), "C27 elements shown", "{what} {n:?}: {out}");
    for (c, (m, x)) in classes.iter().zip(&shown) {
        let id = &ids[*m].iter().find(|s| s.0 == *x).unwrap().1;
        let mut c = c.split(' ');
        check!(c.next() == Some(id) && c.all(|c| c.contains(".rs:")), "C27 class of an element", "{what} {n:?}: {out} {id}");
    }
}
/// one manager may have the default manager's prefix
fn men(places: &[Node], wide: bool) -> Vec<StyleManager> {
    vec![
        StyleManager::default(),
        StyleManager::builder().prefix(if wide { "stylist" } else { "m" }.into()).container(places[1].clone()).build().expect("builds"),
        StyleManager::builder().prefix("n".into()).container(places[2].clone()).build().expect("builds"),
    ]
}
fn places() -> Vec<Node> {
    let html = document().document_element().unwrap();
    vec![document().head().unwrap().into(), element("div", &html).into(), element("div", &html).into()]
}
fn client(budgets: &[u32], depth: u32, wide: bool) {
    web_sys::model::page(true);
    let body: Element = document().body().unwrap().into();
    let places = places();
    let men = Rc::new(men(&places, wide));
    let mut ever = vec![vec![], vec![], vec![]];
    let mut app: Option<AppHandle<App>> = None;
    for b in budgets {
        let n = Rc::new(tree(&mut b.clone(), depth, wide));
        let p = P { n: n.clone(), men: men.clone() };
        match &mut app {
            None => app = Some(yew::Renderer::<App>::with_root_and_props(body.clone(), p).render()),
            Some(a) => {
                a.update(p);
                rt::cover("update");
            }
        }
        yew::platform::drain();
        consistent(&n, &body, &places, &mut ever, "client");
    }
    rt::emit(dump(&document()).as_bytes());
    app.take().unwrap().destroy();
    yew::platform::drain();
    consistent(&[], &body, &places, &mut ever, "destroyed");
}
/// rendered on the server, loaded with its static markup, hydrated, then updated
fn hydrated(budget: u32, then: u32, depth: u32, wide: bool) {
    // stands in for the server, which has no document
    web_sys::model::page(true);
    let prefixes = ["d", "m", "n"];
    let mut server = vec![];
    let mut readers = vec![];
    for p in prefixes {
        let (w, r) = render_static();
        server.push(StyleManager::builder().prefix(p.into()).writer(w).build().expect("builds"));
        readers.push(r);
    }
    let m = rt::choice(2) as usize;
    let n = Rc::new(vec![N::Provider(m, tree(&mut budget.clone(), depth, wide))]);
    let page = crate::block(yew::LocalServerRenderer::<Root>::with_props(P { n: n.clone(), men: Rc::new(server) }).render());
    yew::platform::drain();
    web_sys::model::page(true);
    let head: Node = document().head().unwrap().into();
    let mut markup = vec![];
    for r in readers {
        let mut s = String::new();
        r.read_style_data().write_static_markup(&mut s).expect("writes");
        markup.push(s);
    }
    document().head().unwrap().set_inner_html(&markup.concat());
    let server = styles(&head);
    let body: Element = document().body().unwrap().into();
    body.set_inner_html(&page);
    let classes = |b: &Element| -> Vec<String> { crate::tree::between(&dump(b), "<i class=\"", "\"").into_iter().map(|s| s.to_string()).collect() };
    let before = classes(&body);
    // managers of the client, with places of their own to tell their styles from the server's
    let mut places = places();
    places[0] = element("span", &places[0].parent_node().unwrap()).into();
    let client: Vec<StyleManager> = prefixes
        .iter()
        .zip(&places)
        .map(|(p, c)| StyleManager::builder().prefix(p.to_string().into()).container(c.clone()).build().expect("builds"))
        .collect();
    let client = Rc::new(client);
    let mut app = yew::Renderer::<Root>::with_root_and_props(body.clone(), P { n: n.clone(), men: client.clone() }).hydrate();
    yew::platform::drain();
    let after = classes(&body);
    check!(before == after, "C27 classes after hydration", "{n:?}: {before:?} {after:?} {page}");
    check!(styles(&head) == server, "C27 styles of the server", "{n:?}: {}", dump(&head));
    for p in &places {
        check!(styles(p).is_empty(), "C27 styles of the server mounted again", "{n:?}: {} {page}", dump(&document()));
    }
    rt::cover("hydrated");
    if then > 0 {
        // other components, below the same provider or one for another manager
        let m = rt::choice(3) as usize;
        let n2 = Rc::new(vec![N::Provider(m, tree(&mut then.clone(), 0, wide))]);
        app.update(P { n: n2.clone(), men: client.clone() });
        yew::platform::drain();
        let (mut shown, mut global) = (vec![], vec![]);
        uses(&n2, 0, &mut shown, &mut global);
        // the manager's styles: from the server, by their prefix, and its own
        let own = |s: &(String, String)| s.0.starts_with(&format!("{}-", prefixes[m]));
        let all: Vec<(String, String)> = server.iter().filter(|s| own(s)).cloned().chain(styles(&places[m])).collect();
        let classes = classes(&body);
        check!(classes.len() == shown.len(), "C27 elements shown", "{n:?} {n2:?}: {}", dump(&body));
        for (c, (_, x)) in classes.iter().zip(&shown) {
            let id = c.split(' ').next().unwrap();
            let equal: Vec<&String> = all.iter().filter(|s| s.1 == rendered(x, Some(&s.0))).map(|s| &s.0).collect();
            check!(equal == [id], "C27 style after hydration", "{n:?} {n2:?}: {}", dump(&document()));
        }
        for (_, x) in &global {
            check!(all.iter().any(|s| s.1 == rendered(x, None)), "C27 global style after hydration", "{n:?} {n2:?}: {}", dump(&document()));
        }
        rt::cover("update");
    }
    app.destroy();
    yew::platform::drain();
    rt::emit(page.as_bytes());
}
harnesses! {
    fn c27_client22() { client(&[2, 2], 2, false) }
    fn c27_client21() { client(&[2, 1], 1, true) }
    fn c27_client1111() { client(&[1, 1, 1, 1], 0, false) }
    fn c27_then3() { hydrated(2, 2, 1, true) }
    fn c27_client2() { client(&[2, 2], 2, true) }
    fn c27_client3() { client(&[3, 2], 2, false) }
    fn c27_client222() { client(&[2, 2, 2], 1, false) }
    fn c27_hydrated2() { hydrated(2, 0, 1, true) }
    fn c27_hydrated3() { hydrated(3, 0, 2, false) }
    fn c27_then2() { hydrated(2, 2, 1, false) }
}
