//! Path-condition bookkeeping and satisfiability of branch alternatives.
//!
//! Every UNSAT answer comes from z3 (directly, or from a cache of z3 answers keyed by the query up to renaming of
//! input bytes).  SAT answers may also be found by intersecting per-byte value sets; these are validated by the
//! concrete execution that follows.
use crate::expr::*;
use crate::z3;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone)]
enum Cached {
    Unsat,
    Sat(Vec<u8>),
}
const SHARDS: usize = 64;
pub struct SharedCache {
    sh: Vec<Mutex<FxMap<u128, Cached>>>,
}
impl SharedCache {
    pub fn new() -> Arc<Self> {
        Arc::new(SharedCache { sh: (0..SHARDS).map(|_| Mutex::new(Default::default())).collect() })
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub fast_sat: u64,
    pub cache_sat: u64,
    pub cache_unsat: u64,
    /// infeasible by disjoint byte sets that z3 certified
    pub set_unsat: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_us: u64,
    pub z3_max_us: u64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.fast_sat += o.fast_sat;
        self.cache_sat += o.cache_sat;
        self.cache_unsat += o.cache_unsat;
        self.set_unsat += o.set_unsat;
        self.z3_sat += o.z3_sat;
        self.z3_unsat += o.z3_unsat;
        self.z3_unknown += o.z3_unknown;
        self.z3_us += o.z3_us;
        self.z3_max_us = self.z3_max_us.max(o.z3_max_us);
    }
}

pub type Set = [u64; 4];
const FULL: Set = [!0; 4];
fn inter(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn is_empty(a: &Set) -> bool {
    a.iter().all(|x| *x == 0)
}
fn has(a: &Set, v: u8) -> bool {
    a[(v / 64) as usize] >> (v % 64) & 1 == 1
}
fn single(a: &Set) -> Option<u8> {
    if a.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
        for i in 0..4 {
            if a[i] != 0 {
                return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
            }
        }
    }
    None
}
/// values of the set, most readable first
fn pick(a: &Set, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let pref = |v: u8| match v {
        b'a'..=b'z' => 0,
        b'A'..=b'Z' | b'0'..=b'9' => 1,
        33..=126 => 2,
        32 => 3,
        0..=127 => 4,
        _ => 5,
    };
    for p in 0..6 {
        for v in 0..=255u8 {
            if has(a, v) && pref(v) == p {
                out.push(v);
                if out.len() >= n {
                    return out;
                }
            }
        }
    }
    out
}

pub enum Answer {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub struct Solver {
    pub z: z3::Z3,
    pub cache: Arc<SharedCache>,
    pub st: Stats,
    // path state
    pub singles: Vec<Vec<E>>,
    pub dom: Vec<Set>,
    pub multi: Vec<E>,
    pub known: FxMap<E, u128>,
    pub nconstraints: usize,
    /// number of constraints accumulated on the deepest path
    pub max_constraints: usize,
}

impl Solver {
    pub fn new(cache: Arc<SharedCache>, timeout_ms: u32) -> Self {
        Solver {
            z: z3::Z3::new(timeout_ms),
            cache,
            st: Default::default(),
            singles: vec![vec![]; MAXVARS],
            dom: vec![FULL; MAXVARS],
            multi: vec![],
            known: Default::default(),
            nconstraints: 0,
            max_constraints: 0,
        }
    }
    pub fn reset(&mut self) {
        self.max_constraints = self.max_constraints.max(self.nconstraints);
        for s in &mut self.singles {
            s.clear();
        }
        for d in &mut self.dom {
            *d = FULL;
        }
        self.multi.clear();
        self.known.clear();
        self.nconstraints = 0;
    }
    /// Records that `c` (width 1) holds on this path.
    pub fn assume(&mut self, d: &mut Dag, c: E) {
        if d.kval(c).is_some() {
            return;
        }
        if self.known.get(&c) == Some(&1) {
            return;
        }
        let n = d.n[c as usize];
        self.known.insert(c, 1);
        let nc = d.not(c);
        self.known.insert(nc, 0);
        if n.op == Op::And {
            self.assume(d, n.a);
            self.assume(d, n.b);
            return;
        }
        if n.op == Op::Not {
            let i = d.n[n.a as usize];
            if i.op == Op::Or {
                let (x, y) = (d.not(i.a), d.not(i.b));
                self.assume(d, x);
                self.assume(d, y);
                return;
            }
        }
        if n.op == Op::Eq {
            if let Some(k) = d.kval(n.b) {
                self.known.insert(n.a, k);
            }
        }
        self.nconstraints += 1;
        let vm = d.vars[c as usize];
        if vm.count_ones() == 1 {
            let v = vm.trailing_zeros() as usize;
            let s = d.set(c);
            self.dom[v] = inter(&self.dom[v], &s);
            self.singles[v].push(c);
            if let Some(x) = single(&self.dom[v]) {
                let ve = d.var(v);
                self.known.insert(ve, x as u128);
            }
        } else {
            self.multi.push(c);
        }
    }
    /// Is PC ∧ extra (conjunction) satisfiable?  On SAT returns a full model derived from `model`.
    pub fn feasible(&mut self, d: &mut Dag, extra: &[E], model: &[u8]) -> Answer {
        self.st.queries += 1;
        let mut vm: Mask = 0;
        let mut ex: Vec<E> = Vec::with_capacity(extra.len());
        for &e in extra {
            if let Some(k) = d.kval(e) {
                if k == 0 {
                    return Answer::Unsat;
                }
                continue;
            }
            if self.known.get(&e) == Some(&1) {
                continue;
            }
            vm |= d.vars[e as usize];
            ex.push(e);
        }
        if ex.is_empty() {
            return Answer::Sat(model.to_vec());
        }
        // closure over multi-variable constraints
        let mut used = vec![false; self.multi.len()];
        let mut ms: Vec<E> = vec![];
        loop {
            let mut ch = false;
            for (i, &m) in self.multi.iter().enumerate() {
                if !used[i] && d.vars[m as usize] & vm != 0 {
                    used[i] = true;
                    ms.push(m);
                    if d.vars[m as usize] & !vm != 0 {
                        vm |= d.vars[m as usize];
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let all_single = ex.iter().all(|e| d.vars[*e as usize].count_ones() == 1);
        if all_single {
            // per-variable sets
            let mut sets: Vec<(usize, Set)> = vec![];
            for &e in &ex {
                let v = d.vars[e as usize].trailing_zeros() as usize;
                let s = d.set(e);
                if let Some(p) = sets.iter_mut().find(|p| p.0 == v) {
                    p.1 = inter(&p.1, &s);
                } else {
                    let s2 = inter(&self.dom[v], &s);
                    sets.push((v, s2));
                }
            }
            if let Some((v, _)) = sets.iter().find(|p| is_empty(&p.1)) {
                // unsatisfiable on one byte: find a small core and have z3 confirm it
                let v = *v;
                let mut core: Vec<E> =
                    ex.iter().copied().filter(|e| d.vars[*e as usize] == 1u128 << v).collect();
                let mut cur = FULL;
                for &e in &core {
                    let s = d.set(e);
                    cur = inter(&cur, &s);
                }
                let mut cand: Vec<E> = self.singles[v].clone();
                // one constraint that is enough?
                let mut done = is_empty(&cur);
                if !done {
                    for &e in &cand {
                        let s = d.set(e);
                        if is_empty(&inter(&cur, &s)) {
                            core.push(e);
                            done = true;
                            break;
                        }
                    }
                }
                while !done {
                    // greedy: the constraint removing most
                    let mut best = (u32::MAX, 0usize);
                    for (i, &e) in cand.iter().enumerate() {
                        let s = inter(&cur, &d.set(e));
                        let c = s.iter().map(|x| x.count_ones()).sum::<u32>();
                        if c < best.0 {
                            best = (c, i);
                        }
                    }
                    let e = cand.swap_remove(best.1);
                    cur = inter(&cur, &d.set(e));
                    core.push(e);
                    done = is_empty(&cur);
                }
                // each constraint of the core implies membership of its set (z3), and the sets are disjoint
                if core.iter().all(|e| self.certified(d, *e, v)) {
                    self.st.set_unsat += 1;
                    return Answer::Unsat;
                }
                return match self.solve(d, &core) {
                    Answer::Unsat => Answer::Unsat,
                    // cannot happen unless the set computation is wrong
                    _ => Answer::Unknown,
                };
            }
            if ms.is_empty() {
                let mut m = model.to_vec();
                for (v, s) in &sets {
                    put(&mut m, *v, pick(s, 1)[0]);
                }
                self.st.fast_sat += 1;
                return Answer::Sat(m);
            }
            if sets.len() == 1 {
                for x in pick(&sets[0].1, 6) {
                    let mut m = model.to_vec();
                    put(&mut m, sets[0].0, x);
                    if ms.iter().all(|c| d.eval(*c, &m) == 1) {
                        self.st.fast_sat += 1;
                        return Answer::Sat(m);
                    }
                }
            }
        }
        let mut cs = ex;
        cs.extend_from_slice(&ms);
        for v in 0..MAXVARS {
            if vm >> v & 1 == 1 {
                cs.extend_from_slice(&self.singles[v]);
            }
        }
        match self.solve(d, &cs) {
            Answer::Sat(part) => {
                // `part` is (var,value) pairs packed
                let mut m = model.to_vec();
                for p in part.chunks(2) {
                    put(&mut m, p[0] as usize, p[1]);
                }
                Answer::Sat(m)
            }
            x => x,
        }
    }
    /// z3 has shown (once per shape of constraint) that `e`, on byte `v`, implies that the byte is in `set(e)`.
    fn certified(&mut self, d: &mut Dag, e: E, v: usize) -> bool {
        let key = d.shape[e as usize] ^ 0x5e7;
        let sh = (key % SHARDS as u128) as usize;
        if matches!(self.cache.sh[sh].lock().unwrap().get(&key), Some(Cached::Unsat)) {
            return true;
        }
        let s = d.set(e);
        let x = d.var(v);
        // the byte is outside of every range of the set
        let mut cs = vec![e];
        let mut lo = 0usize;
        while lo < 256 {
            if !has(&s, lo as u8) {
                lo += 1;
                continue;
            }
            let mut hi = lo;
            while hi < 255 && has(&s, hi as u8 + 1) {
                hi += 1;
            }
            let (kl, kn) = (d.konst(lo as u128, 8), d.konst((hi - lo) as u128, 8));
            let off = d.bin(Op::Sub, x, kl);
            let out = d.icmp(Op::Ult, kn, off);
            match d.kval(out) {
                Some(0) => return true, // the set is everything
                Some(_) => {}
                None => cs.push(out),
            }
            lo = hi + 1;
        }
        if let Answer::Unsat = self.solve(d, &cs) {
            self.cache.sh[sh].lock().unwrap().insert(key, Cached::Unsat);
            return true;
        }
        false
    }
    /// Solve a set of constraints as is; SAT answers are packed (var, value) pairs.
    fn solve(&mut self, d: &mut Dag, cs: &[E]) -> Answer {
        let mut cs: Vec<E> = cs.to_vec();
        cs.sort_by_key(|e| (d.shape[*e as usize], d.vars[*e as usize]));
        cs.dedup();
        let mut ren: Vec<u8> = vec![];
        let mut memo: FxMap<E, u128> = Default::default();
        let mut key = 0x1234u128;
        for &e in &cs {
            let h = canon(d, e, &mut ren, &mut memo);
            key = mixh(key, h);
        }
        let sh = (key % SHARDS as u128) as usize;
        let hit = self.cache.sh[sh].lock().unwrap().get(&key).cloned();
        match hit {
            Some(Cached::Unsat) => {
                self.st.cache_unsat += 1;
                return Answer::Unsat;
            }
            Some(Cached::Sat(vals)) => {
                let mut m = vec![0u8; MAXVARS];
                let mut out = vec![];
                for (i, v) in ren.iter().enumerate() {
                    m[*v as usize] = vals[i];
                    out.push(*v);
                    out.push(vals[i]);
                }
                if cs.iter().all(|c| d.eval(*c, &m) == 1) {
                    self.st.cache_sat += 1;
                    return Answer::Sat(out);
                }
            }
            None => {}
        }
        let t = Instant::now();
        let r = self.z.check(d, &cs);
        let us = t.elapsed().as_micros() as u64;
        self.st.z3_us += us;
        self.st.z3_max_us = self.st.z3_max_us.max(us);
        if std::env::var("LLSYM_SLOW").map_or(false, |x| us > x.parse().unwrap_or(500_000)) {
            eprintln!("slow query {}us {} constraints", us, cs.len());
            for c in &cs {
                eprintln!("   {}", d.dump(*c));
            }
        }
        match r {
            z3::Res::Unsat => {
                self.st.z3_unsat += 1;
                self.cache.sh[sh].lock().unwrap().insert(key, Cached::Unsat);
                Answer::Unsat
            }
            z3::Res::Sat(m) => {
                self.st.z3_sat += 1;
                let mut full = vec![0u8; MAXVARS];
                for (v, x) in &m {
                    full[*v] = *x;
                }
                if !cs.iter().all(|c| d.eval(*c, &full) == 1) {
                    // model disagrees with our own evaluator: never trust it
                    self.st.z3_unknown += 1;
                    return Answer::Unknown;
                }
                let vals: Vec<u8> = ren.iter().map(|v| full[*v as usize]).collect();
                self.cache.sh[sh].lock().unwrap().insert(key, Cached::Sat(vals));
                let mut out = vec![];
                for (v, x) in m {
                    out.push(v as u8);
                    out.push(x);
                }
                Answer::Sat(out)
            }
            z3::Res::Unknown => {
                self.st.z3_unknown += 1;
                Answer::Unknown
            }
        }
    }
}
fn put(m: &mut Vec<u8>, i: usize, v: u8) {
    if m.len() <= i {
        m.resize(i + 1, 0);
    }
    m[i] = v;
}
fn canon(d: &Dag, e: E, ren: &mut Vec<u8>, memo: &mut FxMap<E, u128>) -> u128 {
    if let Some(&h) = memo.get(&e) {
        return h;
    }
    let n = d.n[e as usize];
    let mut h = mixh(n.op as u128 + 1, n.w as u128);
    match n.op {
        Op::Var => {
            let v = n.k as u8;
            let i = match ren.iter().position(|x| *x == v) {
                Some(i) => i,
                None => {
                    ren.push(v);
                    ren.len() - 1
                }
            };
            h = mixh(h, i as u128 + 100);
        }
        Op::Const => h = mixh(h, n.k),
        Op::Tab => {
            for x in d.tables[n.k as usize].iter() {
                h = mixh(h, *x as u128 + 1);
            }
            h = mixh(h, canon(d, n.a, ren, memo));
        }
        _ => {
            for c in [n.a, n.b, n.c] {
                if c != 0 {
                    let x = canon(d, c, ren, memo);
                    h = mixh(h, x);
                }
            }
            h = mixh(h, n.k + 7);
        }
    }
    memo.insert(e, h);
    h
}
