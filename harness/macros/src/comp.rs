//! C28: the attribute macros on functions.
use crate::rt;
use proc_macro2::*;
use quote::ToTokens;
use syn::*;

fn pick(v: &[&'static str]) -> &'static str {
    v[rt::fork(v.len() as u32) as usize]
}
const ATTRS: [&str; 6] = ["#[a]", "#[cfg(all())]", "/// doc\n", "#[allow(unused)]", "#[inline]", "#[a::b = \"c\"]"];
const VIS: [&str; 5] = ["", "pub", "pub(crate)", "pub(super)", "pub(in a::b)"];
const QUAL: [&str; 5] = ["", "async", "unsafe", "extern \"C\"", "const"];
const GEN: [(&str, &str); 6] = [
    ("", ""),
    ("<T>", ""),
    ("<'a, T: A<'a> + 'a>", ""),
    ("<const N: usize>", ""),
    ("<T, U>", "where T: A, U: B<T>"),
    ("<T>", "where T: A, for<'a> &'a T: B"),
];
const ARGS: [&str; 7] = ["", "p: &P", "p: &P<T>,", "_: &()", "P { a, .. }: &P", "#[a] p: &P", "mut p: P, (a, b): (A, B)"];
const RET: [&str; 5] = ["", "-> Html", "-> HtmlResult", "-> impl A + 'static", "-> ::yew::Html"];
const BODY: [&str; 10] = [
    "let a = 1;",
    "let b = css!(\"c: d;\");",
    "html! { <a class={css!(b: ${c};)} /> }",
    "return a;",
    "fn g() {}",
    "a",
    "{ a }",
    "if a { b } else { c }",
    "macro_rules! d { () => {} }",
    "use a::b;",
];
fn s<T: ToTokens>(t: T) -> String {
    t.to_token_stream().to_string()
}
const NAMES: [&str; 4] = ["A", "ab", "r#type", "_a"];
/// everything that was given arrives, once, in place
fn function(which: u32, args: &str, text: &str) {
    let input: TokenStream = match text.parse() {
        Ok(t) => t,
        Err(_) => return rt::cover("not tokens"),
    };
    let Ok(f) = parse2::<ItemFn>(input.clone()) else {
        return rt::cover("no function");
    };
    let attr: TokenStream = args.parse().unwrap();
    let out = match which {
        0 => crate::styled_component(attr, input),
        _ => crate::styled_component_impl(attr, input),
    };
    let o = match parse2::<ItemFn>(out.clone()) {
        Ok(o) => o,
        Err(_) => {
            check!(false, "C28 a function is rejected", "{text:?} -> {out}");
            return;
        }
    };
    rt::cover("function");
    let outer = |v: &[Attribute]| v.iter().filter(|a| matches!(a.style, AttrStyle::Outer)).cloned().collect::<Vec<_>>();
    let mut attrs = outer(&o.attrs);
    if which == 0 {
        let at = attrs.iter().position(|a| {
            a.path().segments.last().is_some_and(|m| m.ident == "function_component" || m.ident == "component")
                && a.path().segments.first().is_some_and(|m| m.ident == "yew")
        });
        let Some(at) = at else {
            check!(false, "C28 no component", "{text:?} -> {out}");
            return;
        };
        let given = match &attrs.remove(at).meta {
            Meta::Path(_) => String::new(),
            Meta::List(l) => l.tokens.to_string(),
            Meta::NameValue(v) => s(v),
        };
        check!(given == args, "C28 the component has another name", "{args:?}: {given:?}");
    }
    let added = |a: &Attribute| a.path().is_ident("allow") && s(a).contains("clippy");
    let now: Vec<String> = attrs.iter().filter(|a| !added(a)).map(s).collect();
    let was: Vec<String> = outer(&f.attrs).iter().map(s).collect();
    check!(now == was, "C28 attributes differ", "{was:?}: {now:?}");
    check!(s(&o.vis) == s(&f.vis), "C28 visibility differs", "{text:?} -> {out}");
    check!(s(&o.sig) == s(&f.sig), "C28 signature differs", "{text:?} -> {out}");
    let n = &o.block.stmts;
    let m = &f.block.stmts;
    let nested = match n.last() {
        Some(Stmt::Expr(Expr::Block(b), None)) => b.attrs.is_empty() && s(&b.block) == s(&f.block),
        _ => false,
    };
    let k = match nested {
        true => 1,
        false => m.len(),
    };
    let same = nested || n.len() >= k && n[n.len() - k..].iter().map(s).eq(m.iter().map(s));
    check!(same, "C28 the body differs", "{text:?} -> {out}");
    let before = &n[..n.len() - k];
    let css = before.iter().filter(|m| matches!(m, Stmt::Item(Item::Macro(m)) if m.ident.as_ref().is_some_and(|m| m == "css"))).count();
    check!(css == 1, "C28 no css! of its own", "{text:?} -> {out}");
}
/// `deviate` of the parts take any of their forms
fn generated(which: u32, mut deviate: u32, body: u32) {
    let mut may = |k: usize| -> usize {
        if deviate > 0 && (rt::fork(2) == 1) {
            deviate -= 1;
            1 + rt::fork(k as u32 - 1) as usize
        } else {
            0
        }
    };
    let mut t = String::new();
    let a = may(ATTRS.len() + 1);
    let b = may(ATTRS.len() + 1);
    for k in [a, b] {
        if k > 0 {
            t += ATTRS[k - 1];
            t += " ";
        }
    }
    t += VIS[may(VIS.len())];
    t += " ";
    t += QUAL[may(QUAL.len())];
    t += " fn ";
    t += NAMES[may(NAMES.len())];
    let g = GEN[may(GEN.len())];
    t += g.0;
    t += "(";
    t += ARGS[may(ARGS.len())];
    t += ") ";
    t += RET[may(RET.len())];
    t += " ";
    t += g.1;
    t += "{ ";
    for _ in 0..rt::fork(body + 1) {
        t += pick(&BODY);
        t += " ";
    }
    t += "}";
    // attribute macros get no inner attributes: yew's own do not take them either
    let args = match which == 0 && (rt::fork(2) == 1) {
        true => pick(&NAMES),
        false => "",
    };
    function(which, args, &t);
}
fn rejected(out: &TokenStream) -> bool {
    let t = out.to_string();
    t.contains("compile_error !") || t.contains("compile_error!")
}
/// anything else is an error
fn others() {
    const ITEMS: [&str; 15] = [
        "struct A;",
        "pub struct A { a: B }",
        "enum A {}",
        "const A: B = c;",
        "static A: B = c;",
        "mod a { fn b() {} }",
        "trait A { fn b() {} }",
        "impl A { fn b() {} }",
        "use a::b;",
        "extern \"C\" { fn a(); }",
        "type A = B;",
        "a! {}",
        "fn a();",
        "",
        "let a = 1;",
    ];
    let which = rt::fork(2);
    let item: TokenStream = pick(&ITEMS).parse().unwrap();
    let out = match which {
        0 => crate::styled_component(TokenStream::new(), item.clone()),
        _ => crate::styled_component_impl(TokenStream::new(), item.clone()),
    };
    rt::cover("rejected");
    check!(rejected(&out), "C28 not a function, yet accepted", "{item} -> {out}");
}
fn arguments(k: usize) {
    const TOK: [&str; 8] = ["A", "b", ",", "=", "\"c\"", "1", "(d)", "fn"];
    let which = rt::fork(2);
    let mut t = vec![];
    for _ in 0..rt::fork(k as u32 + 1) {
        t.push(pick(&TOK));
    }
    let ok = match which {
        0 => t.is_empty() || t == ["A"] || t == ["b"],
        _ => t.is_empty(),
    };
    let args = t.join(" ");
    if ok {
        rt::cover("accepted");
        return function(which, &args, "fn a() -> Html { b }");
    }
    let item: TokenStream = "fn a() -> Html { b }".parse().unwrap();
    let attr: TokenStream = args.parse().unwrap();
    let out = match which {
        0 => crate::styled_component(attr, item),
        _ => crate::styled_component_impl(attr, item),
    };
    rt::cover("rejected");
    check!(rejected(&out), "C28 arguments that mean nothing are accepted", "{args:?} -> {out}");
}
harnesses! {
    fn c28_one() { generated(rt::fork(2), 1, 2) }
    fn c28_two() { generated(rt::fork(2), 2, 1) }
    fn c28_body3() { generated(rt::fork(2), 0, 3) }
    fn c28_three() { generated(rt::fork(2), 3, 1) }
    fn c28_items() { others() }
    fn c28_args() { arguments(3) }
}
