// Exercises the encoding of std and language features that harnesses or changed code may use; every path is
// compared with the native build by tools/selftest.sh.
include!("../../rt/rt.rs");
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
fn e<T: std::fmt::Debug>(t: T) {
    rt::emit(format!("{t:?};").as_bytes());
}
fn text(n: usize) -> String {
    (0..n).map(|_| rt::from(b"ab ,\n;A0") as char).collect()
}
harnesses! {
fn st_int8() {
    let b = rt::bytes(2);
    let (x, y) = (b[0], b[1]);
    e(x.wrapping_add(y) > 200);
    e(x.checked_mul(y).is_some());
    e(x.saturating_sub(y) > 7);
    e((x as i8).checked_div(y as i8).map(|m| m > 3));
    e(x.leading_zeros() > y.trailing_zeros());
    e(x.count_ones() == y.count_ones());
    e(x.rotate_left(3) < y.swap_bytes());
    e((x as i8).abs_diff(y as i8) > 100);
    e((x as i8).signum());
}
fn st_int128() {
    let b = rt::bytes(4);
    let x = u128::from_le_bytes([b[0], 1, 2, 3, 4, 5, 6, 7, 8, 9, b[1], 11, 12, 13, 14, 15]);
    let y = (b[2] as u128) << 70 | b[3] as u128;
    e(x.wrapping_add(y) > 1 << 100);
    e(x ^ y > y);
    e((x >> 65) as u8 > b[3]);
    e(x.checked_sub(y).is_some());
}
fn st_shift() {
    let b = rt::bytes(2);
    let s = (b[1] % 32) as u32;
    e((b[0] as u32) << s > 1000);
    e((b[0] as i32 - 128) >> s < -3);
    e(u32::MAX >> s == 7);
}
fn st_div() {
    let b = rt::bytes(2);
    if b[1] != 0 {
        e(b[0] / b[1] == 5);
        e(b[0] % b[1] == 2);
        e((b[0] as i64 - 100) / (b[1] as i64) == -3);
        e((b[0] as i64 - 100).rem_euclid(b[1] as i64) == 1);
    }
}
fn st_str() {
    let s = text(3);
    e(s.trim());
    e(s.split(',').map(|m| m.len()).collect::<Vec<_>>());
    e(s.find("a,"));
    e(s.to_ascii_uppercase());
    e(s.replace("a", "xyz"));
    e(s.strip_prefix("ab"));
    e(s.lines().count());
    e(s.split_whitespace().collect::<Vec<_>>());
    e(s.char_indices().rev().next());
    e(s.rfind(|c: char| c.is_uppercase()));
    e(s.split_once(','));
    e(s.eq_ignore_ascii_case("AA0"));
    e(s.parse::<u32>().ok());
    e(s.contains("b;"));
    e(s.rsplitn(2, ';').last().map(|m| m.len()));
    e(s.trim_end_matches(char::is_alphanumeric));
    e(s.as_str().cmp("b0a"));
}
fn st_find_long() {
    let s = format!("some longer text {}{} with more text", text(1), text(1));
    e(s.find("ab"));
    e(s.find("b "));
    e(s.rfind("A "));
    e(s.matches('a').count());
    e(s.bytes().position(|b| b == b';'));
    e(s.replacen("a", "--", 2));
}
fn st_unicode() {
    let b = rt::bytes(3);
    match std::str::from_utf8(&b) {
        Ok(s) => {
            e(s.chars().count());
            e(s.chars().any(char::is_whitespace));
            e(s.chars().all(|c| c.is_alphanumeric()));
            e(s.trim().len());
        }
        Err(x) => e(x.valid_up_to()),
    }
}
fn st_lower() {
    let b = rt::bytes(2);
    if let Ok(s) = std::str::from_utf8(&b) {
        e(s.to_lowercase().len());
        e(s.to_uppercase().len());
    }
}
fn st_sort() {
    let mut v: Vec<u8> = rt::bytes(4);
    v.sort();
    e(v.is_sorted());
    v.dedup();
    e(v.len());
    e(v.binary_search(&100).is_ok());
}
fn st_sort_by() {
    let mut v: Vec<(u8, usize)> = rt::bytes(3).into_iter().enumerate().map(|(i, x)| (x, i)).collect();
    v.sort_by_key(|m| m.0 > 9);
    e(v.iter().map(|m| m.1).collect::<Vec<_>>());
    v.sort_unstable_by(|a, b| b.cmp(a));
    e(v[0].1);
    v.retain(|m| m.0 != 3);
    e(v.len());
}
fn st_vec() {
    let b = rt::bytes(3);
    let mut v = b.clone();
    v.rotate_left(1);
    v.insert(1, 9);
    e(v.iter().position(|x| *x == 9));
    e(v.iter().max() > v.iter().min());
    v.drain(1..3);
    v.extend_from_slice(&b);
    e(v.windows(2).filter(|w| w[0] == w[1]).count());
    e(v.chunks(2).map(|c| c.len()).sum::<usize>());
    v.swap(0, 2);
    v.truncate(2);
    e(v == b[..2]);
    e(v.contains(&7));
    e(v.iter().rev().zip(b.iter()).all(|(x, y)| x == y));
    e(v.concat_check());
}
fn st_maps() {
    let b = rt::bytes(3);
    let mut h: HashMap<u8, usize> = HashMap::new();
    let mut t: BTreeMap<u8, usize> = BTreeMap::new();
    for (i, x) in b.iter().enumerate() {
        *h.entry(*x).or_default() += i;
        t.insert(*x, i);
    }
    e(h.len());
    e(t.len() == h.len());
    e(h.get(&5).copied());
    e(t.values().copied().collect::<Vec<_>>());
    e(t.range(10..20).count());
    let mut w: Vec<_> = h.into_iter().collect();
    w.sort();
    e(w.iter().map(|m| m.1).collect::<Vec<_>>());
}
fn st_sets() {
    let b = rt::bytes(2);
    let a: HashSet<String> = b.iter().map(|x| format!("{}", x % 4)).collect();
    let s: BTreeSet<u8> = b.iter().copied().collect();
    e(a.len());
    e(a.contains("3"));
    e(s.first() < Some(&9));
    let mut q: VecDeque<u8> = b.iter().copied().collect();
    q.push_front(1);
    e(q.pop_back() > q.pop_front());
    let mut p: BinaryHeap<u8> = b.into_iter().collect();
    e(p.pop() > Some(7));
}
fn st_fmt() {
    let b = rt::bytes(1);
    e(b[0] as i32 - 99);
    e(format!("{:>5}|{:<4x}|{:03}|{:#?}|{:+}", b[0], b[0], b[0] % 10, Some(b[0] > 3), b[0] as i16 - 1).len());
}
fn st_parse_num() {
    let s: String = (0..3).map(|_| rt::from(b"0159-+x") as char).collect();
    e(s.parse::<i16>().ok());
    e(s.parse::<u8>().is_ok());
    e(i32::from_str_radix(&s, 6).ok());
}
fn st_panic() {
    let b = rt::bytes(2);
    let r = std::panic::catch_unwind(|| {
        let v = vec![1, 2, 3];
        let s = "häh";
        if b[1] == 7 {
            panic!("seven {}", b[0] > 3);
        }
        if b[1] == 8 {
            return s[..(b[0] as usize) % 6].len();
        }
        v[b[0] as usize % 5]
    });
    e(r.as_ref().ok());
    if let Err(x) = r {
        e(x.downcast_ref::<String>().map(|m| m.len()));
    }
}
fn st_box_dyn() {
    trait T { fn f(&self, x: u8) -> u8; }
    struct A(u8);
    struct B;
    impl T for A { fn f(&self, x: u8) -> u8 { self.0.wrapping_add(x) } }
    impl T for B { fn f(&self, x: u8) -> u8 { !x } }
    let b = rt::bytes(2);
    let t: Box<dyn T> = if b[0] & 1 == 0 { Box::new(A(b[0])) } else { Box::new(B) };
    e(t.f(b[1]) > 100);
    let b0 = b[0];
    let f: Vec<Box<dyn Fn(u8) -> u8>> = vec![Box::new(move |x| x ^ b0), Box::new(|x| x.wrapping_mul(3))];
    e(f.iter().map(|m| m(b[1])).max() > Some(200));
}
fn st_enum() {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    enum K { A, B(u8), C { x: String, y: Option<Box<K>> } }
    fn mk(b: &[u8]) -> K {
        match b[0] % 3 {
            0 => K::A,
            1 => K::B(b[1]),
            _ => K::C { x: if b[1] > 9 { "x".into() } else { "yy".into() }, y: Some(Box::new(K::B(b[1]))) },
        }
    }
    let b = rt::bytes(4);
    let (x, y) = (mk(&b[..2]), mk(&b[2..]));
    e(x == y);
    e(x.cmp(&y));
    let h = |k: &K| { let mut s = Fnv(1); k.hash(&mut s); s.finish() };
    e((h(&x) == h(&y)) || x != y);
}
fn st_iter() {
    let b = rt::bytes(3);
    e(b.iter().scan(0u8, |s, x| { *s = s.wrapping_add(*x); Some(*s) }).filter(|x| *x > 100).count());
    e(b.iter().fold(String::new(), |mut s, x| { if *x > 9 { s.push('l') } else { s.push_str("ss") } s }));
    e(b.iter().skip_while(|x| **x == 0).step_by(2).count());
    let (l, r): (Vec<u8>, Vec<u8>) = b.iter().partition(|x| **x % 2 == 0);
    e(l.len() > r.len());
    e(b.iter().min_by_key(|x| x.abs_diff(100)).map(|x| *x > 100));
    let mut p = b.iter().peekable();
    while p.next_if(|x| **x < 50).is_some() {}
    e(p.peek().is_some());
    e(b.iter().flat_map(|x| std::iter::repeat(x).take((x % 3) as usize)).count());
}
fn st_rc_cell() {
    use std::cell::{Cell, RefCell, OnceCell};
    use std::rc::{Rc, Weak};
    let b = rt::bytes(2);
    let r = Rc::new(RefCell::new(vec![b[0]]));
    let w: Weak<_> = Rc::downgrade(&r);
    let q = (b[1] > 3).then(|| r.clone());
    drop(r);
    e(w.upgrade().map(|m| m.borrow().len()));
    if let Some(q) = q { q.borrow_mut().push(1); e(q.try_borrow_mut().is_ok()); }
    let c = Cell::new(b[0]);
    e(c.replace(4) > 9);
    let o = OnceCell::new();
    e(o.get_or_init(|| b[1]) == &b[1]);
}
fn st_sync() {
    use std::sync::{atomic::*, Arc, Mutex, OnceLock, RwLock};
    static C: AtomicUsize = AtomicUsize::new(0);
    static O: OnceLock<String> = OnceLock::new();
    let b = rt::bytes(1);
    if b[0] > 9 { C.fetch_add(3, Ordering::SeqCst); }
    e(C.load(Ordering::Relaxed));
    e(C.compare_exchange(3, 5, Ordering::SeqCst, Ordering::SeqCst).is_ok());
    e(O.get_or_init(|| "x".repeat(3)));
    let m = Arc::new(Mutex::new(b[0]));
    *m.lock().unwrap() |= 1;
    e(*m.lock().unwrap() > 3);
    e(*RwLock::new(b[0]).read().unwrap() == 4);
    C.store(0, Ordering::SeqCst);
}
fn st_copy() {
    let b = rt::bytes(2);
    let n = (b[0] % 20) as usize;
    let src: Vec<u8> = (0..20).collect();
    let mut dst = vec![0u8; 20];
    dst[..n].copy_from_slice(&src[..n]);
    e(dst.iter().map(|x| *x as u32).sum::<u32>());
    e(dst.get(b[1] as usize).is_some());
    e(&src[(b[1] % 5) as usize..][..2]);
}
fn st_table() {
    static T: [u16; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i * 7 % 64) as u16; i += 1 } t };
    let b = rt::bytes(2);
    e(T[b[0] as usize] > T[b[1] as usize]);
    e(T[b[0] as usize ^ b[1] as usize] == 9);
    let s = ["a", "bb", "ccc"][(b[0] % 3) as usize];
    e(s.len());
}
fn st_cow() {
    use std::borrow::Cow;
    let s = text(2);
    let c: Cow<str> = if s.contains('a') { Cow::Owned(s.replace('a', "A")) } else { Cow::Borrowed(&s) };
    e(matches!(c, Cow::Borrowed(_)));
    e(c.into_owned());
    let mut o = String::from_utf8_lossy(s.as_bytes()).into_owned();
    o.insert(0, 'é');
    o.insert_str(1, "mm");
    e(o.pop());
    e(o.remove(0));
    o.retain(|c| c != ' ');
    e(o.chars().rev().collect::<String>());
    e(o.repeat(2).len());
}
fn st_match_slice() {
    let b = rt::bytes(3);
    e(match b.as_slice() { [b'a', rest @ ..] => rest.len(), [.., b'z'] => 7, [x, y, _] if x == y => 8, _ => 9 });
    e(match b[0] { 0..=9 => 1, 10 | 20 | 30 => 2, b'a'..=b'f' => 3, x if x > 250 => 4, _ => 5 });
    e(match std::str::from_utf8(&b) { Ok("abc") => 1, Ok("xyz") => 2, Ok(_) => 3, _ => 4 });
}
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(31);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
trait ConcatCheck {
    fn concat_check(&self) -> usize;
}
impl ConcatCheck for Vec<u8> {
    fn concat_check(&self) -> usize {
        [&self[..], &[1, 2]].concat().len() + vec!["a", "b"].join("--").len()
    }
}
fn main() {
    rt::main_(ENTRIES)
}
