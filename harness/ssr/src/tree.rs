//! C27: the styles of a component tree, rendered on the server.
use crate::model::*;
use crate::rt;
use std::future::Future;
use std::rc::Rc;
use stylist::ast::Sheet;
use stylist::manager::{render_static, StaticReader, StyleData, StyleManager};
use stylist::yew::{styled_component, use_style, Global, ManagerProvider};
use stylist::{GlobalStyle, Style, StyleSource};
use yew::prelude::*;

#[derive(Clone, PartialEq, Debug)]
pub enum N {
    /// a component calling use_style
    Hook(String),
    /// the same with the macro, the value interpolated
    HookMacro(String),
    /// a styled component using css!
    Css(String),
    /// a styled component showing its children below a css! class
    CssAround(String, Vec<N>),
    Global(String),
    Provider(usize, Vec<N>),
}
#[derive(Properties, Clone)]
pub struct P {
    pub n: Rc<Vec<N>>,
    pub men: Rc<Vec<StyleManager>>,
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        Rc::ptr_eq(&self.n, &o.n)
    }
}
#[derive(Properties, Clone, PartialEq)]
struct L {
    x: String,
    #[prop_or_default]
    children: Children,
}
pub fn text(x: &str) -> String {
    format!("color: {x};")
}
#[component(Hook)]
fn hook(p: &L) -> Html {
    let s = use_style(text(&p.x));
    html! { <i class={s.get_class_name().to_string()}></i> }
}
#[component(HookMacro)]
fn hook_macro(p: &L) -> Html {
    let x = p.x.clone();
    let s = stylist::yew::use_style!("color: ${x};", x = x);
    html! { <i class={s}></i> }
}
#[styled_component(Css)]
fn css_c(p: &L) -> Html {
    html! { <i class={css!(color: ${&p.x};)}>{p.children.clone()}</i> }
}
fn show(v: &[N], men: &Rc<Vec<StyleManager>>) -> Html {
    let mut o: Vec<Html> = vec![];
    for n in v {
        o.push(match n {
            N::Hook(x) => html! { <Hook x={x.clone()}/> },
            N::HookMacro(x) => html! { <HookMacro x={x.clone()}/> },
            N::Css(x) => html! { <Css x={x.clone()}/> },
            N::CssAround(x, c) => html! { <Css x={x.clone()}>{show(c, men)}</Css> },
            N::Global(x) => {
                let s: StyleSource = text(x).parse().unwrap();
                html! { <Global css={s}/> }
            }
            N::Provider(m, c) => html! { <ManagerProvider manager={men[*m].clone()}>{show(c, men)}</ManagerProvider> },
        });
    }
    o.into_iter().collect()
}
#[component(App)]
pub fn app(p: &P) -> Html {
    show(&p.n, &p.men)
}
fn block<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut c = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..100 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x;
        }
    }
    rt::fail("C27 rendering does not end")
}

/// what a manager is to hold after rendering
#[derive(Default)]
struct Want {
    /// kind, value, class if already known
    styles: Vec<(bool, String, Option<String>)>,
}
struct Page {
    /// manager and value of each element with a class, in order
    shown: Vec<(usize, String)>,
    /// providers in the order their state is written, with the number of styles
    states: Vec<(usize, usize)>,
    want: Vec<Want>,
}
fn expect(v: &[N], m: usize, p: &mut Page) {
    for n in v {
        match n {
            N::Hook(x) | N::HookMacro(x) | N::Css(x) | N::CssAround(x, _) => {
                if !p.want[m].styles.iter().any(|s| !s.0 && s.1 == *x) {
                    p.want[m].styles.push((false, x.clone(), None));
                }
                p.shown.push((m, x.clone()));
                if let N::CssAround(_, c) = n {
                    expect(c, m, p);
                }
            }
            // gone as soon as it is rendered
            N::Global(x) => p.want[m].styles.push((true, x.clone(), None)),
            N::Provider(k, c) => {
                expect(c, *k, p);
                let n = p.want[*k].styles.len();
                p.states.push((*k, n));
            }
        }
    }
}
pub fn between<'a>(s: &'a str, a: &str, b: &str) -> Vec<&'a str> {
    let mut v = vec![];
    let mut r = s;
    while let Some(i) = r.find(a) {
        r = &r[i + a.len()..];
        let j = r.find(b).expect("closed");
        v.push(&r[..j]);
        r = &r[j..];
    }
    v
}
fn base64(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        acc = acc << 6 | d as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
        }
    }
    o
}
fn markup(d: &StyleData) -> String {
    let mut s = String::new();
    d.write_static_markup(&mut s).expect("writes");
    s
}
fn leaf() -> String {
    of(b"ab", 1)
}
pub fn tree(budget: &mut u32, depth: u32, wide: bool) -> Vec<N> {
    let mut v = vec![];
    while *budget > 0 {
        let k = rt::choice(if depth > 0 { if wide { 7 } else { 4 } } else { if wide { 5 } else { 3 } });
        if k == 0 {
            break;
        }
        *budget -= 1;
        v.push(match if wide { k } else { [0, 2, 4, 5][k as usize] } {
            1 => N::Hook(leaf()),
            2 => N::Css(leaf()),
            3 => N::HookMacro(leaf()),
            4 => N::Global(leaf()),
            5 => N::Provider(rt::choice(3) as usize, tree(budget, depth - 1, wide)),
            _ => N::CssAround(leaf(), tree(budget, depth - 1, wide)),
        });
    }
    v
}
fn page(budget: u32, depth: u32, wide: bool) {
    let (w1, r1) = render_static();
    let (w2, r2) = render_static();
    // the first is the default manager, which keeps no style data; another may have the same prefix
    let m = if wide { "stylist" } else { "m" };
    let men = vec![
        StyleManager::default(),
        StyleManager::builder().prefix(m.into()).writer(w1).build().expect("builds"),
        StyleManager::builder().prefix("n".into()).writer(w2).build().expect("builds"),
    ];
    let mut b = budget;
    let n = tree(&mut b, depth, wide);
    let men = Rc::new(men);
    let out = block(yew::LocalServerRenderer::<App>::with_props(P { n: Rc::new(n.clone()), men: men.clone() }).render());
    let mut p = Page { shown: vec![], states: vec![], want: (0..3).map(|_| Want::default()).collect() };
    expect(&n, 0, &mut p);
    // what is registered now
    let data: Vec<StyleData> = [r1, r2].into_iter().map(StaticReader::read_style_data).collect();
    let ids: Vec<Vec<(String, String)>> = data
        .iter()
        .map(|d| {
            let s = markup(d);
            let i = between(&s, "data-style=\"", "\"");
            i.into_iter().map(|m| m.to_string()).zip(between(&s, "\">", "</style").into_iter().map(|m| m.to_string())).collect()
        })
        .collect();
    for m in 1..3 {
        let want = &p.want[m].styles;
        check!(want.len() == ids[m - 1].len(), "C27 number of styles in a manager", "{n:?}: {:?} {:?}", ids[m - 1], want);
        for (w, (id, t)) in want.iter().zip(&ids[m - 1]) {
            let s: Sheet = text(&w.1).parse().expect("accepted");
            let x = stylist_core::ast::ToStyleStr::to_style_str(&s, if w.0 { None } else { Some(id) });
            check!(*t == x, "C27 text of a style", "{n:?}: {t:?} {x:?}");
        }
    }
    // the classes shown are those of the nearest manager's styles
    let shown = between(&out, "<i class=\"", "\"");
    check!(shown.len() == p.shown.len(), "C27 elements shown", "{n:?}: {out}");
    for (s, (m, x)) in shown.iter().zip(&p.shown) {
        let st = Style::new_with_manager(text(x), men[*m].clone()).expect("creates");
        check!(
            s.split(' ').next() == Some(st.get_class_name()) && s.split(' ').skip(1).all(|c| c.contains(".rs:")),
            "C27 class of an element",
            "{n:?}: {s:?} {:?}",
            st.get_class_name()
        );
        if *m > 0 {
            check!(ids[*m - 1].iter().any(|i| i.0 == st.get_class_name()), "C27 class of an element is not in its manager's data", "{n:?}");
        }
    }
    // global styles are gone
    for m in 0..3 {
        for w in p.want[m].styles.iter().filter(|w| w.0) {
            let g = GlobalStyle::new_with_manager(text(&w.1), men[m].clone()).expect("creates");
            check!(m == 0 || ids[m - 1].iter().all(|i| i.0 != *g.id().to_string()), "C27 a global style stays registered", "{n:?}");
            rt::cover("global");
        }
    }
    // each provider hands on what its manager holds
    let states = between(&out, "<script type=\"application/x-yew-comp-state\">", "</script>");
    check!(states.len() == p.states.len(), "C27 states handed on", "{n:?}: {out}");
    for (s, (m, k)) in states.iter().zip(&p.states) {
        let b = base64(s);
        let d: Option<StyleData> = bincode::serde::decode_from_slice::<(Option<StyleData>,), _>(&b, bincode::config::standard()).ok().and_then(|x| x.0 .0);
        rt::cover("state");
        let d = match d {
            Some(d) => d,
            None => {
                check!(false, "C27 state cannot be read", "{n:?} {s}");
                return;
            }
        };
        if *m == 0 {
            check!(markup(&d).is_empty(), "C27 styles handed on without style data", "{n:?}");
            continue;
        }
        let client = StyleManager::builder().prefix(men[*m].prefix()).build().expect("builds");
        client.load_style_data(&d);
        for (w, (id, _)) in p.want[*m].styles.iter().zip(&ids[*m - 1]).take(*k).filter(|w| !w.0 .0) {
            let st = Style::new_with_manager(text(&w.1), client.clone()).expect("creates");
            check!(st.get_class_name() == id, "C27 style not handed on", "{n:?}: {w:?}");
        }
    }
    rt::emit(out.as_bytes());
}
harnesses! {
    fn c27_pages1() { page(1, 1, true) }
    fn c27_pages2() { page(2, 2, true) }
    fn c27_pages3() { page(3, 2, false) }
    fn c27_pages4() { page(4, 3, false) }
    fn c27_pages5() { page(5, 3, false) }
    fn c27_wide3() { page(3, 3, true) }
    fn c27_wide4() { page(4, 3, true) }
}
