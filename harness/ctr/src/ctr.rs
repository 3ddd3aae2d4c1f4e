//! C29: ids that are counted.
use crate::hist::{number, numbered};
use crate::model::*;
use crate::rt;
use stylist::manager::{render_static, StyleData, StyleManager};

const C29: &str = "C29 two styles have the same id";
fn manager(prefix: u32) -> StyleManager {
    match prefix {
        0 => StyleManager::default(),
        1 => StyleManager::builder().build().expect("builds"),
        _ => StyleManager::builder().prefix("p".into()).build().expect("builds"),
    }
}
struct Seen(Vec<(Spec, String, StyleManager)>);
impl Seen {
    /// the style has an id of its own, the same as before if it is still registered
    fn take(&mut self, m: &StyleManager, s: Spec, h: &H, before: Option<&str>) {
        let id = h.id();
        check!(before.is_some() || id_fits(&id, &s, m), "C29 id is not prefix and number", "{s:?} {id}");
        if let H::S(x) = h {
            check!(x.get_class_name() == id && ([3, 5].contains(&s.shape) || h.text().contains(&format!(".{id} "))), "C29 class name is not the id", "{id} {}", h.text());
        }
        match before {
            Some(b) => check!(b == id, "C29 a registered style has another id", "{s:?} {b} {id}"),
            None => check!(self.0.iter().all(|o| o.1 != id), C29, "{s:?} {id} {:?}", self.0.iter().map(|o| &o.1).collect::<Vec<_>>()),
        }
        rt::emit(id.as_bytes());
        self.0.push((s, id, m.clone()));
    }
}
/// data of a server, in which ids were counted from elsewhere
fn renamed(d: &StyleData, from: &[String], to: &[String]) -> StyleData {
    let mut t = serde_json::to_string(d).expect("serialises");
    for (f, i) in from.iter().zip(0..) {
        let n = &f[f.rfind('-').expect("number") + 1..];
        t = t.replace(&format!("style-{n}\""), &format!("style-@{i}\"")).replace(&format!("style-{n} "), &format!("style-@{i} "));
    }
    for (n, i) in to.iter().zip(0..) {
        t = t.replace(&format!("style-@{i}"), &format!("style-{n}"));
    }
    serde_json::from_str(&t).expect("reads back")
}
fn spec(leaf: &str) -> Spec {
    let global = rt::flag();
    let prefix = if !global && rt::flag() { Some("p".to_string()) } else { None };
    Spec { global, prefix, shape: 0, leaf: leaf.to_string() }
}
/// `n` styles loaded, with numbers of their own; then `k` fresh ones in the same or another manager
fn hydrated(n: u32, k: u32, number: impl Fn(u32) -> String) {
    let (w, r) = render_static();
    let server = StyleManager::builder().writer(w).build().expect("builds");
    let mine: Vec<Spec> = (0..n).map(|i| spec(["a", "b", "c"][i as usize])).collect();
    let ids: Vec<String> = mine.iter().map(|s| s.create(&server, 0).expect("creates").id()).collect();
    let numbers: Vec<String> = (0..n).map(|i| number(i)).collect();
    for i in 0..n as usize {
        rt::assume((0..i).all(|j| numbers[i] != numbers[j]));
    }
    let d = renamed(&r.read_style_data(), &ids, &numbers);
    let m = manager(1);
    m.load_style_data(&d);
    let mut seen = Seen(vec![]);
    let mut keep = vec![];
    for (s, i) in mine.iter().zip(0..) {
        let id = ids[i][..ids[i].rfind('-').expect("number") + 1].to_string() + &numbers[i];
        let h = s.create(&m, 0).expect("creates");
        check!(h.id() == id, "C29 a style of the server has another id", "{id} {}", h.id());
        seen.take(&m, s.clone(), &h, Some(&id));
        if rt::flag() {
            h.unregister();
        }
        keep.push(h);
    }
    for i in 0..k {
        let s = spec(["x", "y", "z"][i as usize]);
        let m = if rt::flag() { manager(1) } else { m.clone() };
        let h = s.create(&m, 0).expect("creates");
        seen.take(&m, s, &h, None);
        keep.push(h);
    }
    rt::cover("hydrated");
}
/// creations in any of three managers, some unregistered or dropped again
fn history(n: u32) {
    let men: Vec<StyleManager> = (0..3).map(manager).collect();
    let mut seen = Seen(vec![]);
    let mut keep: Vec<(usize, Spec, H)> = vec![];
    for _ in 0..n {
        let k = rt::choice(3) as usize;
        let s = Spec { leaf: of(b"ab", 1), ..spec("") };
        let before = keep.iter().find(|o| o.0 == k && o.1.same(&men[k], &s)).map(|o| o.2.id());
        let h = s.create(&men[k], 0).expect("creates");
        seen.take(&men[k], s.clone(), &h, before.as_deref());
        rt::cover(if before.is_some() { "again" } else { "fresh" });
        if rt::flag() {
            h.unregister();
            keep.retain(|o| o.0 != k || !o.1.same(&men[k], &s));
        } else {
            keep.push((k, s, h));
        }
    }
}
harnesses! {
    fn c29_history3() { history(3) }
    fn c29_history4() { history(4) }
    fn c29_many() {
        // any number of styles of all kinds, by turns in two managers
        let men = [manager(rt::fork(3)), manager(1)];
        let n = number();
        let mut seen = Seen(vec![]);
        let mut keep = vec![];
        for i in 0..n {
            let s = numbered(i / 2, false);
            let h = s.create(&men[i as usize % 2], 0).expect("creates");
            seen.take(&men[i as usize % 2], s, &h, None);
            if i % 3 > 0 { keep.push(h) }
        }
    }
    fn c29_hydrated3() { hydrated(2, 3, |_| of(b"0123456789", 1)) }
    fn c29_hydrated() { hydrated(rt::fork(2) + 1, 2, |_| of(b"0123456789", 1)) }
    fn c29_hydrated2() { hydrated(2, 1, |i| if i == 0 { of(b"123456789", 1) + &of(b"0123456789", 1) } else { of(b"0123456789", 1) }) }
    fn c29_numbers() {
        // numbers of any length and other ids
        let end = of(b"0123456789a-", 1);
        let n = ["", "9", "99", "999999999", "1844674407370955161", "18446744073709551615", "99999999999999999999", "abcdefg", "\u{661}"][rt::fork(9) as usize];
        hydrated(1, 1, |_| n.to_string() + &end)
    }
}
