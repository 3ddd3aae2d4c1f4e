//! Hash-consed bit-vector expression DAG with a light simplifier.
//! Expression id 0 means "no expression": the value is concrete.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // k = input byte index
    Add,
    Sub,
    Mul,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    UDiv,
    URem,
    SDiv,
    SRem,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Tab,     // a = index (8 bit), k = table id
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub type Mask = u128;
pub const MAXVARS: usize = 128;

pub struct Dag {
    pub n: Vec<Node>,
    pub vars: Vec<Mask>,
    /// structural hash with variables abstracted (used for canonical query keys of 1-variable exprs)
    pub shape: Vec<u128>,
    map: FxMap<Node, E>,
    pub tables: Vec<Box<[u64; 256]>>,
    tabmap: FxMap<Box<[u64; 256]>, u32>,
    /// cached 256-bit satisfaction sets for one-variable width-1 expressions
    pub sets: FxMap<E, [u64; 4]>,
    memo: Vec<(u32, u128)>,
    memo_gen: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}
fn mix(a: u128, b: u128) -> u128 {
    let mut x = (a ^ b.rotate_left(37)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^= x >> 61;
    x = x.wrapping_mul(0xD6E8FEB86659FD93_A5A3564E27F8862B);
    x ^ (x >> 59)
}
pub fn mixh(a: u128, b: u128) -> u128 {
    mix(a, b)
}

impl Dag {
    pub fn new() -> Self {
        let mut d = Dag {
            n: vec![],
            vars: vec![],
            shape: vec![],
            map: Default::default(),
            tables: vec![],
            tabmap: Default::default(),
            sets: Default::default(),
            memo: vec![],
            memo_gen: 0,
        };
        // id 0: reserved
        d.n.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        d.vars.push(0);
        d.shape.push(0);
        d
    }
    pub fn len(&self) -> usize {
        self.n.len()
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let e = self.n.len() as u32;
        let mut vm: Mask = 0;
        let mut sh = mix(nd.op as u128 + 1, nd.w as u128);
        match nd.op {
            Op::Var => vm = 1u128 << nd.k,
            Op::Const => sh = mix(sh, nd.k),
            Op::Tab => {
                vm = self.vars[nd.a as usize];
                // table contents, not the worker-local table id, go in the shape
                let mut h = 0u128;
                for x in self.tables[nd.k as usize].iter() {
                    h = mix(h, *x as u128 + 1);
                }
                sh = mix(mix(sh, h), self.shape[nd.a as usize]);
            }
            _ => {
                for c in [nd.a, nd.b, nd.c] {
                    if c != 0 {
                        vm |= self.vars[c as usize];
                        sh = mix(sh, self.shape[c as usize]);
                    }
                }
                sh = mix(sh, nd.k + 7);
            }
        }
        self.n.push(nd);
        self.vars.push(vm);
        self.shape.push(sh);
        self.map.insert(nd, e);
        e
    }
    /// order of commutative operands, independent of allocation order
    fn after(&self, a: E, b: E) -> bool {
        let k = |e: E| (self.shape[e as usize], self.vars[e as usize], e);
        k(a) > k(b)
    }
    pub fn konst(&mut self, k: u128, w: u8) -> E {
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn kval(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn node(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }
    pub fn table(&mut self, idx: E, t: Box<[u64; 256]>, w: u8) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0] as u128, w);
        }
        let id = if let Some(&i) = self.tabmap.get(&t) {
            i
        } else {
            let i = self.tables.len() as u32;
            self.tables.push(t.clone());
            self.tabmap.insert(t, i);
            i
        };
        self.node(Op::Tab, w, idx, 0, 0, id as u128)
    }
    pub fn apply(op: Op, w: u8, x: u128, y: u128) -> u128 {
        let m = mask(w);
        (match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = sext(x, w);
                if y >= w as u128 {
                    (s >> 127) as u128
                } else {
                    (s >> y) as u128
                }
            }
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            Op::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            _ => unreachable!(),
        }) & m
    }
    pub fn cmp(op: Op, w: u8, x: u128, y: u128) -> bool {
        match op {
            Op::Eq => x == y,
            Op::Ult => x < y,
            Op::Ule => x <= y,
            Op::Slt => sext(x, w) < sext(y, w),
            Op::Sle => sext(x, w) <= sext(y, w),
            _ => unreachable!(),
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => return self.konst(!n.k, n.w),
            Op::Not => return n.a,
            Op::Ult => return self.node(Op::Ule, 1, n.b, n.a, 0, 0),
            Op::Ule => return self.node(Op::Ult, 1, n.b, n.a, 0, 0),
            Op::Slt => return self.node(Op::Sle, 1, n.b, n.a, 0, 0),
            Op::Sle => return self.node(Op::Slt, 1, n.b, n.a, 0, 0),
            _ => {}
        }
        self.node(Op::Not, n.w, a, 0, 0, 0)
    }

    fn ite_consts(&self, a: E) -> Option<(E, u128, u128)> {
        let n = self.n[a as usize];
        if n.op == Op::Ite {
            if let (Some(x), Some(y)) = (self.kval(n.b), self.kval(n.c)) {
                return Some((n.a, x, y));
            }
        }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = Self::apply(op, w, x, y);
            return self.konst(r, w);
        }
        // constants to the right for commutative ops
        let (mut a, mut b, mut ka, mut kb) = (a, b, ka, kb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if ka.is_some() || (kb.is_none() && self.after(a, b)) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ka, &mut kb);
            }
        }
        if let (Op::Sub, Some(k)) = (op, kb) {
            let nk = self.konst(0u128.wrapping_sub(k), w);
            return self.bin(Op::Add, a, nk);
        }
        let m = mask(w);
        if let Some(k) = kb {
            match op {
                Op::Add | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And if k == 0 => return b,
                Op::And if k == m => return a,
                Op::Or if k == m => return b,
                Op::Xor if k == m => return self.not(a),
                Op::Mul if k == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 => return a,
                Op::URem if k == 1 => return self.konst(0, w),
                _ => {}
            }
            if let Some((c, x, y)) = self.ite_consts(a) {
                let (x, y) = (Self::apply(op, w, x, k), Self::apply(op, w, y, k));
                let (x, y) = (self.konst(x, w), self.konst(y, w));
                return self.ite(c, x, y);
            }
            let na = self.n[a as usize];
            match op {
                Op::Add | Op::Xor | Op::And | Op::Or | Op::Mul if na.op == op => {
                    if let Some(k2) = self.kval(na.b) {
                        let kk = Self::apply(op, w, k, k2);
                        let kk = self.konst(kk, w);
                        return self.bin(op, na.a, kk);
                    }
                }
                _ => {}
            }
            match op {
                Op::Shl => {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.extract(a, 0, w - k as u8);
                    let z = self.konst(0, k as u8);
                    return self.concat(x, z);
                }
                Op::LShr => {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let x = self.extract(a, k as u8, w - k as u8);
                    return self.zext(x, w);
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                Op::Mul if k.is_power_of_two() => {
                    let s = self.konst(k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.konst(k - 1, w);
                    return self.bin(Op::And, a, s);
                }
                Op::And if w > 1 => {
                    // low mask
                    if (k + 1).is_power_of_two() {
                        let x = self.extract(a, 0, (k + 1).trailing_zeros() as u8);
                        return self.zext(x, w);
                    }
                    // and over zext: narrow
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.konst(k & mask(iw), iw);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.konst(0, w),
                _ => {}
            }
        }
        if w == 1 && matches!(op, Op::And | Op::Or) {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.konst((op == Op::Or) as u128, 1);
            }
        }
        if op == Op::Or && w > 1 {
            // concat(x, 0_k) | zext(y) with width(y) <= k
            for (p, q) in [(a, b), (b, a)] {
                let (np, nq) = (self.n[p as usize], self.n[q as usize]);
                if np.op == Op::Concat && self.kval(np.b) == Some(0) && nq.op == Op::ZExt {
                    let k = self.w(np.b);
                    if self.w(nq.a) <= k {
                        let lo = self.zext(nq.a, k);
                        return self.concat(np.a, lo);
                    }
                }
                // zext(concat(x,0_k)) | zext(y)
                if np.op == Op::ZExt && nq.op == Op::ZExt {
                    let ni = self.n[np.a as usize];
                    if ni.op == Op::Concat && self.kval(ni.b) == Some(0) {
                        let k = self.w(ni.b);
                        if self.w(nq.a) <= k {
                            let lo = self.zext(nq.a, k);
                            let c = self.concat(ni.a, lo);
                            return self.zext(c, w);
                        }
                    }
                }
            }
        }
        self.node(op, w, a, b, 0, 0)
    }

    pub fn icmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(Self::cmp(op, w, x, y) as u128, 1);
        }
        if a == b {
            return self.konst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        if op == Op::Eq {
            let (a, b, kb) =
                if ka.is_some() { (b, a, ka) } else if kb.is_none() && self.after(a, b) { (b, a, kb) } else { (a, b, kb) };
            let na = self.n[a as usize];
            if let Some(k) = kb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if k >> iw != 0 {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(k, iw);
                        return self.icmp(Op::Eq, na.a, kk);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        let t = k & mask(iw);
                        if (sext(t, iw) as u128) & mask(w) != k {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(t, iw);
                        return self.icmp(Op::Eq, na.a, kk);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b);
                        let hw = self.w(na.a);
                        let kh = self.konst(k >> lw, hw);
                        let kl = self.konst(k & mask(lw), lw);
                        let x = self.icmp(Op::Eq, na.a, kh);
                        if self.kval(x) == Some(0) {
                            return x;
                        }
                        let y = self.icmp(Op::Eq, na.b, kl);
                        return self.bin(Op::And, x, y);
                    }
                    Op::Add => {
                        if let Some(k2) = self.kval(na.b) {
                            let kk = self.konst(k.wrapping_sub(k2), w);
                            return self.icmp(Op::Eq, na.a, kk);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.kval(na.b) {
                            let kk = self.konst(k ^ k2, w);
                            return self.icmp(Op::Eq, na.a, kk);
                        }
                    }
                    Op::Not => {
                        let kk = self.konst(!k, w);
                        return self.icmp(Op::Eq, na.a, kk);
                    }
                    Op::Ite => {
                        if let (Some(x), Some(y)) = (self.kval(na.b), self.kval(na.c)) {
                            return match (x == k, y == k) {
                                (true, true) => self.konst(1, 1),
                                (false, false) => self.konst(0, 1),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                            };
                        }
                        if self.kval(na.b).is_some() || self.kval(na.c).is_some() {
                            let x = self.icmp(Op::Eq, na.b, b);
                            let y = self.icmp(Op::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                    _ => {}
                }
            } else {
                let nb = self.n[b as usize];
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.icmp(Op::Eq, na.a, nb.a);
                }
            }
            return self.node(Op::Eq, 1, a, b, 0, 0);
        }
        // orderings against constants
        let m = mask(w);
        if let Some(k) = kb {
            let na = self.n[a as usize];
            match op {
                Op::Ult if k == 0 => return self.konst(0, 1),
                Op::Ule if k == m => return self.konst(1, 1),
                Op::Ult if k == 1 => {
                    let z = self.konst(0, w);
                    return self.icmp(Op::Eq, a, z);
                }
                Op::Ult | Op::Ule if na.op == Op::ZExt => {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.icmp(op, na.a, kk);
                }
                Op::Slt | Op::Sle if na.op == Op::ZExt => {
                    // zext is non-negative
                    if sext(k, w) < 0 {
                        return self.konst(0, 1);
                    }
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.icmp(u, a, b);
                }
                _ => {}
            }
            if let Some((c, x, y)) = self.ite_consts(a) {
                let (x, y) = (Self::cmp(op, w, x, k), Self::cmp(op, w, y, k));
                return match (x, y) {
                    (true, true) => self.konst(1, 1),
                    (false, false) => self.konst(0, 1),
                    (true, false) => c,
                    (false, true) => self.not(c),
                };
            }
        }
        if let Some(k) = ka {
            let nb = self.n[b as usize];
            match op {
                Op::Ult if k == m => return self.konst(0, 1),
                Op::Ule if k == 0 => return self.konst(1, 1),
                Op::Ult | Op::Ule if nb.op == Op::ZExt => {
                    let iw = self.w(nb.a);
                    if k > mask(iw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, iw);
                    return self.icmp(op, kk, nb.a);
                }
                Op::Slt | Op::Sle if nb.op == Op::ZExt => {
                    if sext(k, w) < 0 {
                        return self.konst(1, 1);
                    }
                    let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
                    return self.icmp(u, a, b);
                }
                _ => {}
            }
            if let Some((c, x, y)) = self.ite_consts(b) {
                let (x, y) = (Self::cmp(op, w, k, x), Self::cmp(op, w, k, y));
                return match (x, y) {
                    (true, true) => self.konst(1, 1),
                    (false, false) => self.konst(0, 1),
                    (true, false) => c,
                    (false, true) => self.not(c),
                };
            }
        }
        self.node(op, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if self.w(a) == 1 {
            match (self.kval(a), self.kval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        self.node(Op::Ite, self.w(a), c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let (x, y) = (self.konst(x, w), self.konst(y, w));
            return self.ite(c, x, y);
        }
        self.node(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(sext(n.k, n.w) as u128, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            _ => {}
        }
        if let Some((c, x, y)) = self.ite_consts(a) {
            let (x, y) = (self.konst(sext(x, n.w) as u128, w), self.konst(sext(y, n.w) as u128, w));
            return self.ite(c, x, y);
        }
        self.node(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let x = self.extract(n.b, lo, lw - lo);
                let y = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(y, x);
            }
            Op::Ite => {
                if self.kval(n.b).is_some() || self.kval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if self.kval(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add if lo == 0 && self.kval(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            _ => {}
        }
        self.node(Op::Extract, w, a, 0, 0, lo as u128)
    }
    /// a: high part, b: low part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w + nb.w;
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.konst((na.k << nb.w) | nb.k, w);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        // adjacent extracts
        let base = |n: &Node, e: E| if n.op == Op::Extract { (n.a, n.k as u8) } else { (e, 0) };
        let (xa, la) = base(&na, a);
        let (xb, lb) = base(&nb, b);
        if xa == xb && na.op == Op::Extract && la == lb + nb.w {
            return self.extract(xa, lb, w);
        }
        // the same, where the lower piece has been simplified
        if na.op == Op::Extract && la >= nb.w && self.extract(xa, la - nb.w, nb.w) == b {
            return self.extract(xa, la - nb.w, w);
        }
        // a is a zext whose inner continues b
        if na.op == Op::ZExt {
            let ni = self.n[na.a as usize];
            if ni.op == Op::Extract && ni.a == xb && ni.k as u8 == lb + nb.w {
                let x = self.extract(xb, lb, nb.w + ni.w);
                return self.zext(x, w);
            }
        }
        // sign-extension pieces or (concat(h, x) , y) with x,y adjacent
        if na.op == Op::Concat {
            let n2 = self.n[na.b as usize];
            if n2.op == Op::Extract && n2.a == xb && n2.k as u8 == lb + nb.w {
                let x = self.extract(xb, lb, nb.w + n2.w);
                return self.concat(na.a, x);
            }
            if n2.op == Op::Const && nb.op == Op::Const {
                let x = self.konst((n2.k << nb.w) | nb.k, n2.w + nb.w);
                return self.concat(na.a, x);
            }
        }
        self.node(Op::Concat, w, a, b, 0, 0)
    }

    /// Evaluates under a model of input bytes (iterative through recursion with memo).
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.memo_gen = self.memo_gen.wrapping_add(1);
        if self.memo_gen == 0 {
            self.memo.clear();
            self.memo_gen = 1;
        }
        let n = self.n.len();
        if self.memo.len() < n {
            self.memo.resize(n + n / 2, (0, 0));
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let nd = self.n[e as usize];
        match nd.op {
            Op::Const => return nd.k,
            Op::Var => return *m.get(nd.k as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if self.memo[e as usize].0 == self.memo_gen {
            return self.memo[e as usize].1;
        }
        let r = match nd.op {
            Op::Not => !self.ev(nd.a, m) & mask(nd.w),
            Op::ZExt => self.ev(nd.a, m),
            Op::SExt => (sext(self.ev(nd.a, m), self.w(nd.a)) as u128) & mask(nd.w),
            Op::Extract => (self.ev(nd.a, m) >> nd.k as u32) & mask(nd.w),
            Op::Concat => {
                let lw = self.w(nd.b);
                (self.ev(nd.a, m) << lw) | self.ev(nd.b, m)
            }
            Op::Ite => {
                if self.ev(nd.a, m) == 1 {
                    self.ev(nd.b, m)
                } else {
                    self.ev(nd.c, m)
                }
            }
            Op::Tab => {
                let i = self.ev(nd.a, m) as usize;
                self.tables[nd.k as usize][i] as u128
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let x = self.ev(nd.a, m);
                let y = self.ev(nd.b, m);
                Self::cmp(nd.op, self.w(nd.a), x, y) as u128
            }
            op => {
                let x = self.ev(nd.a, m);
                let y = self.ev(nd.b, m);
                Self::apply(op, nd.w, x, y)
            }
        };
        self.memo[e as usize] = (self.memo_gen, r);
        r
    }
    /// The set of values of the only variable of `e` (width 1) for which `e` holds.
    pub fn set(&mut self, e: E) -> [u64; 4] {
        if let Some(s) = self.sets.get(&e) {
            return *s;
        }
        let vm = self.vars[e as usize];
        debug_assert_eq!(vm.count_ones(), 1);
        let v = vm.trailing_zeros() as usize;
        let mut model = [0u8; MAXVARS];
        let mut s = [0u64; 4];
        for x in 0..256usize {
            model[v] = x as u8;
            if self.eval(e, &model) == 1 {
                s[x / 64] |= 1 << (x % 64);
            }
        }
        self.sets.insert(e, s);
        s
    }
    pub fn clone_for_eval(d: &Dag) -> Dag {
        let mut x = Dag::new();
        x.n = d.n.clone();
        x.tables = d.tables.clone();
        x
    }
    pub fn dump(&self, e: E) -> String {
        self.dump_d(e, 8)
    }
    fn dump_d(&self, e: E, d: usize) -> String {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            _ if d == 0 => "..".into(),
            _ => {
                let mut s = format!("({:?}.{}", n.op, n.w);
                if matches!(n.op, Op::Extract | Op::Tab) {
                    s += &format!("[{}]", n.k);
                }
                for c in [n.a, n.b, n.c] {
                    if c != 0 {
                        s += " ";
                        s += &self.dump_d(c, d - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
