//! C26: components using the media-query hooks, in the real client-side yew.
use crate::rt;
use std::rc::Rc;
use stylist::yew::{use_media_query, use_prepared_media_query};
use web_sys::model;
use yew::prelude::*;

const Q: [&str; 3] = ["(min-width: 1px)", "(min-width: 2px)", "print"];

#[derive(Clone, PartialEq, Debug)]
struct C {
    prepared: bool,
    fallback: bool,
    q: usize,
    at: usize,
}
#[derive(Properties, Clone, PartialEq)]
struct P {
    v: Rc<Vec<Option<C>>>,
}
#[derive(Properties, Clone, PartialEq)]
struct M {
    c: C,
}
thread_local! {
    /// what a component with the prepared hook saw, in order
    static SEEN: std::cell::RefCell<Vec<(usize, bool)>> = const { std::cell::RefCell::new(vec![]) };
}
#[component(Plain)]
fn plain(p: &M) -> Html {
    let m = use_media_query(Q[p.c.q]);
    html! { <i>{if m { "1" } else { "0" }}</i> }
}
#[component(Prepared)]
fn prepared(p: &M) -> HtmlResult {
    let m = use_prepared_media_query(Q[p.c.q], p.c.fallback)?;
    SEEN.with(|s| s.borrow_mut().push((p.c.at, m)));
    Ok(html! { <i>{if m { "1" } else { "0" }}</i> })
}
#[component(App)]
fn app(p: &P) -> Html {
    let wait = html! { <b>{"wait"}</b> };
    let mut o: Vec<Html> = vec![];
    for (i, c) in p.v.iter().enumerate() {
        let Some(c) = c else { continue };
        o.push(if c.prepared {
            html! { <Suspense key={i} fallback={wait.clone()}><Prepared c={c.clone()}/></Suspense> }
        } else {
            html! { <Plain key={i} c={c.clone()}/> }
        });
    }
    o.into_iter().collect()
}
fn settled(v: &[Option<C>], body: &web_sys::Element) -> (String, String) {
    let want: String = v.iter().flatten().map(|c| if model::media_now(Q[c.q]) { "<i>1</i>" } else { "<i>0</i>" }).collect();
    (model::children(body).iter().map(model::dump).collect(), want)
}
fn some(kinds: u32, queries: u32, at: usize) -> C {
    let prepared = kinds == 2 || kinds == 1 && rt::flag();
    C { prepared, fallback: prepared && at == 0, q: rt::choice(queries) as usize, at }
}
/// kinds: 0 plain, 1 both, 2 prepared
fn history(steps: u32, slots: usize, kinds: u32, queries: u32, lazy: bool) {
    model::page(true);
    for q in &Q[..queries as usize] {
        model::media(q, rt::flag());
    }
    let body: web_sys::Element = model::document().body().unwrap().into();
    let mut v: Vec<Option<C>> = vec![None; slots];
    v[0] = Some(some(kinds, queries, 0));
    let mut app = Some(yew::Renderer::<App>::with_root_and_props(body.clone(), P { v: Rc::new(v.clone()) }).render());
    let mut calm = false;
    for _ in 0..steps {
        if !lazy || rt::flag() {
            yew::platform::drain();
            calm = true;
        }
        match rt::choice(4) {
            0 => break,
            1 => {
                let q = rt::choice(queries) as usize;
                let now = model::media_now(Q[q]);
                model::set_media(&[(Q[q], !now)]);
                rt::cover("media");
            }
            2 => {
                // mount, or change the query
                let i = rt::choice(slots as u32) as usize;
                let mut c = some(kinds, queries, i);
                if let Some(o) = &v[i] {
                    c.prepared = o.prepared;
                    c.fallback = o.fallback;
                    rt::cover("query");
                }
                v[i] = Some(c);
                app.as_mut().unwrap().update(P { v: Rc::new(v.clone()) });
            }
            _ => {
                let i = rt::choice(slots as u32) as usize;
                if v[i].take().is_none() {
                    rt::assume(false);
                }
                rt::cover("unmount");
                app.as_mut().unwrap().update(P { v: Rc::new(v.clone()) });
            }
        }
        if calm && !lazy {
            yew::platform::drain();
            let (a, b) = settled(&v, &body);
            check!(a == b, "C26 state shown", "{v:?}: {a} instead of {b}");
        }
    }
    yew::platform::drain();
    let (a, b) = settled(&v, &body);
    check!(a == b, "C26 state shown", "{v:?}: {a} instead of {b}");
    // one listener for each component
    check!(model::listening() == v.iter().flatten().count(), "C26 listeners", "{v:?}: {}", model::listening());
    app.take().unwrap().destroy();
    yew::platform::drain();
    check!(model::listening() == 0, "C26 listeners after the end", "{v:?}");
    rt::emit(a.as_bytes());
}
/// rendered on the server, then hydrated
fn hydrated(n: usize, steps: u32) {
    model::page(false);
    let v: Vec<Option<C>> = (0..n).map(|at| Some(C { prepared: true, fallback: rt::flag(), q: rt::choice(2) as usize, at })).collect();
    let p = P { v: Rc::new(v.clone()) };
    SEEN.with(|s| s.borrow_mut().clear());
    let p1 = p.clone();
    let page = crate::block(yew::LocalServerRenderer::<App>::with_props(p1).render());
    yew::platform::drain();
    let fallbacks: Vec<Option<bool>> = v.iter().flatten().map(|c| Some(c.fallback)).collect();
    let firsts = |seen: &[(usize, bool)]| -> Vec<Option<bool>> { (0..n).map(|i| seen.iter().find(|s| s.0 == i).map(|s| s.1)).collect() };
    check!(firsts(&SEEN.with(|s| s.take())) == fallbacks, "C26 value on the server", "{v:?}: {page}");
    model::page(true);
    for q in &Q[..2] {
        model::media(q, rt::flag());
    }
    let body: web_sys::Element = model::document().body().unwrap().into();
    body.set_inner_html(&page);
    let mut app = yew::Renderer::<App>::with_root_and_props(body.clone(), p).hydrate();
    let mut v = v;
    let mut first = true;
    for _ in 0..steps {
        if rt::flag() {
            yew::platform::drain();
        }
        match rt::choice(3) {
            0 => break,
            1 => {
                let q = rt::choice(2) as usize;
                let now = model::media_now(Q[q]);
                model::set_media(&[(Q[q], !now)]);
                rt::cover("media");
            }
            _ => {
                let i = rt::choice(n as u32) as usize;
                v[i].as_mut().unwrap().q = rt::choice(2) as usize;
                first = first && firsts(&SEEN.with(|s| s.borrow().clone())).iter().all(|x| x.is_some());
                app.update(P { v: Rc::new(v.clone()) });
                rt::cover("query");
            }
        }
    }
    yew::platform::drain();
    if first {
        let seen = firsts(&SEEN.with(|s| s.take()));
        check!(seen == fallbacks, "C26 value while hydrating", "{v:?}: {seen:?}");
        rt::cover("first");
    }
    let (a, b) = settled(&v, &body);
    check!(a == b, "C26 state shown after hydration", "{v:?}: {a} instead of {b}");
    check!(model::listening() == n, "C26 listeners", "{v:?}: {}", model::listening());
    app.destroy();
    yew::platform::drain();
    check!(model::listening() == 0, "C26 listeners after the end", "{v:?}");
    rt::emit(page.as_bytes());
}
harnesses! {
    fn c26_one3() { history(3, 1, 1, 2, false) }
    fn c26_one4() { history(4, 1, 1, 2, false) }
    fn c26_one5() { history(5, 1, 1, 2, false) }
    fn c26_lazy3() { history(3, 1, 1, 2, true) }
    fn c26_two3() { history(3, 2, 1, 2, false) }
    fn c26_hydrated1() { hydrated(1, 3) }
    fn c26_hydrated2() { hydrated(2, 2) }
    fn c26_two4() { history(4, 2, 0, 2, true) }
}
