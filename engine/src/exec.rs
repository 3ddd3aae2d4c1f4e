//! Concolic interpreter: executes the module with concrete values plus symbolic expressions over the input bytes.
use crate::expr::*;
use crate::prog::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::sync::Arc;

#[derive(Clone, Copy, Default, Debug)]
pub struct V {
    pub lo: u64,
    pub hi: u64,
    pub e: E,
}
impl V {
    fn c(lo: u64) -> V {
        V { lo, hi: 0, e: 0 }
    }
    fn full(&self) -> u128 {
        self.lo as u128 | (self.hi as u128) << 64
    }
}

const STACK_BASE: u64 = 0x1000_0000;
const STACK_SIZE: u64 = 0x0080_0000;
const HEAP_BASE: u64 = 0x2000_0000;
const TOP: u64 = 0x4000_0000;
const BLK: u64 = 10; // log2 of the dirty-tracking block

#[derive(Clone, Debug)]
pub struct Item {
    pub model: Vec<u8>,
    pub bound: u32,
    pub check: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    Infeasible,
    Fail(String),
    Panic(String),
    Abort(String),
    Fuel,
    Error(String),
}

pub struct PathResult {
    pub outcome: Outcome,
    pub input: Vec<u8>,
    pub emit: u64,
    pub emitted: Vec<u8>,
    pub covers: Vec<String>,
    pub steps: u64,
    pub branches: u32,
    pub new_items: Vec<Item>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    sp: u64,
}

enum Stop {
    Out(Outcome),
    /// leave merged execution
    MergeEnd,
    MergeBail,
}
type X<T> = Result<T, Stop>;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> i32;
    fn madvise(a: *mut c_void, n: usize, adv: i32) -> i32;
}

struct Merge {
    depth: usize, // frames.len() of the merged call's own frame
    sp: u64,
    decisions: Vec<bool>,
    pos: usize,
    cond: Vec<E>,
    ret: Vec<V>,
    steps_limit: u64,
}

pub struct Config {
    pub fuel: u64,
    /// explore both values of 64-bit selects of constants as paths
    pub split_sel: bool,
    pub max_input: usize,
    pub trace: bool,
    pub merge: bool,
}

pub struct Worker {
    prog: &'static Prog,
    builtins: Vec<u16>,
    mergeable: Arc<Vec<bool>>,
    pub d: Dag,
    pub s: Solver,
    mem: *mut u8,
    sh: *mut u32,
    flag: Vec<u8>,
    dirty: Vec<u32>,
    regs: Vec<V>,
    frames: Vec<Frame>,
    sp: u64,
    sp_max: u64,
    heap: u64,
    allocs: BTreeMap<u64, u64>,
    exc: u64,
    model: Vec<u8>,
    nvars: usize,
    bidx: u32,
    bound: u32,
    hash: u128,
    check: u128,
    items: Vec<Item>,
    fuel: u64,
    emit: u64,
    emitted: Vec<u8>,
    covers: Vec<String>,
    cfg: Arc<Config>,
    image_dirty: bool,
    pub called: Vec<bool>,
    pub branch_sites: FxMap<u64, u64>,
    merge: Option<Box<Merge>>,
    pub merges: u64,
    pub merge_fail: FxMap<u32, u32>,
    randctr: u64,
    hlog: FxMap<u64, Vec<V>>,
    hclass: Vec<Vec<V>>,
}
unsafe impl Send for Worker {}

pub mod bi {
    pub const NONE: u16 = 0;
    pub const MALLOC: u16 = 1;
    pub const CALLOC: u16 = 2;
    pub const REALLOC: u16 = 3;
    pub const FREE: u16 = 4;
    pub const POSIX_MEMALIGN: u16 = 5;
    pub const BCMP: u16 = 6;
    pub const MEMCMP: u16 = 7;
    pub const STRLEN: u16 = 8;
    pub const MEMCPY: u16 = 9;
    pub const MEMSET: u16 = 10;
    pub const RAISE: u16 = 11;
    pub const ATEXIT: u16 = 12;
    pub const ABORT: u16 = 13;
    pub const GETRANDOM: u16 = 14;
    pub const NOP: u16 = 16;
    pub const SYM_BYTES: u16 = 17;
    pub const SYM_FROM: u16 = 18;
    pub const SYM_BELOW: u16 = 19;
    pub const SYM_CHOICE: u16 = 34;
    pub const SYM_ASSUME: u16 = 20;
    pub const SYM_FAIL: u16 = 21;
    pub const SYM_EMIT: u16 = 22;
    pub const SYM_COVER: u16 = 23;
    pub const GETENV: u16 = 24;
    pub const WRITE: u16 = 25;
    pub const MEMCHR: u16 = 26;
    pub const ERRNO: u16 = 27;
    pub const RETZERO: u16 = 28;
    pub const SYSCALL: u16 = 29;
    pub const KEYCREATE: u16 = 30;
    pub const HWRITE: u16 = 31;
    pub const HWRITE_STR: u16 = 32;
    pub const HFINISH: u16 = 33;
}

/// Decides which functions are replaced by engine models, by symbol name.
pub fn builtin(name: &str, decl: bool) -> u16 {
    use bi::*;
    let x = match name {
        "malloc" => MALLOC,
        "calloc" => CALLOC,
        "realloc" => REALLOC,
        "free" => FREE,
        "posix_memalign" => POSIX_MEMALIGN,
        "bcmp" => BCMP,
        "memcmp" => MEMCMP,
        "strlen" => STRLEN,
        "memcpy" | "memmove" => MEMCPY,
        "memset" => MEMSET,
        "memchr" => MEMCHR,
        "_Unwind_RaiseException" => RAISE,
        "__cxa_thread_atexit_impl" => ATEXIT,
        "abort" | "exit" | "_exit" => ABORT,
        "getrandom" => GETRANDOM,
        "getenv" => GETENV,
        "write" | "writev" => WRITE,
        "__errno_location" => ERRNO,
        "__sym_bytes" => SYM_BYTES,
        "__sym_from" => SYM_FROM,
        "__sym_below" => SYM_BELOW,
        "__sym_choice" => SYM_CHOICE,
        "__sym_assume" => SYM_ASSUME,
        "__sym_fail" => SYM_FAIL,
        "__sym_emit" => SYM_EMIT,
        "__sym_cover" => SYM_COVER,
        "syscall" => SYSCALL,
        "pthread_key_create" => KEYCREATE,
        "__sym_native" | "pthread_self" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" => RETZERO,
        _ => NONE,
    };
    if x != NONE {
        return x;
    }
    if !decl {
        if name.contains("12default_hook") {
            return NOP;
        }
        // SipHash, as used by std's hash maps, is modelled as a function without collisions
        if name.contains("4hash3sip") && name.contains("11Sip13Rounds") {
            if name.contains("6Hasher5write") {
                return HWRITE;
            }
            if name.contains("6Hasher9write_str") {
                return HWRITE_STR;
            }
            if name.contains("6Hasher6finish") {
                return HFINISH;
            }
        }
    }
    NONE
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;

impl Drop for Worker {
    fn drop(&mut self) {
        unsafe {
            munmap(self.mem as *mut c_void, (TOP - GBASE) as usize);
            munmap(self.sh as *mut c_void, (TOP - GBASE) as usize * 4);
        }
    }
}

macro_rules! err {
    ($($a:tt)*) => { return Err(Stop::Out(Outcome::Error(format!($($a)*)))) };
}

impl Worker {
    pub fn new(prog: &'static Prog, cache: Arc<SharedCache>, cfg: Arc<Config>, mergeable: Arc<Vec<bool>>) -> Self {
        let n = (TOP - GBASE) as usize;
        let map = |n: usize| unsafe {
            let p = mmap(std::ptr::null_mut(), n, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(p as isize != -1, "mmap");
            p
        };
        let mem = map(n) as *mut u8;
        let sh = map(n * 4) as *mut u32;
        unsafe {
            std::ptr::copy_nonoverlapping(prog.image.as_ptr(), mem, prog.image.len());
        }
        let builtins: Vec<u16> = prog.funcs.iter().map(|f| builtin(&f.name, f.decl)).collect();
        let nf = prog.funcs.len();
        Worker {
            d: Dag::new(),
            s: Solver::new(cache, 20_000),
            mem,
            sh,
            flag: vec![0; (TOP >> BLK) as usize + 1],
            dirty: vec![],
            regs: vec![V::default(); 1 << 16],
            frames: vec![],
            sp: STACK_BASE,
            sp_max: STACK_BASE,
            heap: HEAP_BASE,
            allocs: BTreeMap::new(),
            exc: 0,
            model: vec![],
            nvars: 0,
            bidx: 0,
            bound: 0,
            hash: 0,
            check: 0,
            items: vec![],
            fuel: 0,
            emit: FNV0,
            emitted: vec![],
            covers: vec![],
            cfg,
            image_dirty: false,
            called: vec![false; nf],
            branch_sites: Default::default(),
            prog,
            builtins,
            mergeable,
            merge: None,
            merges: 0,
            merge_fail: Default::default(),
            randctr: 0,
            hlog: Default::default(),
            hclass: vec![],
        }
    }

    fn reset(&mut self) {
        unsafe {
            for &b in &self.dirty {
                let a = (b as u64) << BLK;
                std::ptr::write_bytes(self.sh.add((a - GBASE) as usize), 0, 1 << BLK);
                self.flag[b as usize] = 0;
            }
            let (m0, m1) = self.prog.mutable;
            std::ptr::copy_nonoverlapping(self.prog.image.as_ptr(), self.mem.add((m0 - GBASE) as usize), (m1 - m0) as usize);
            let hu = (self.heap - HEAP_BASE) as usize;
            let hp = self.mem.add((HEAP_BASE - GBASE) as usize);
            if hu > 8 << 20 {
                let n = (hu + 4095) / 4096 * 4096;
                madvise(hp as *mut c_void, n, 4);
            } else {
                std::ptr::write_bytes(hp, 0, hu);
            }
        }
        self.dirty.clear();
        self.frames.clear();
        self.sp = STACK_BASE;
        self.heap = HEAP_BASE;
        self.allocs.clear();
        self.exc = 0;
        self.nvars = 0;
        self.bidx = 0;
        self.hash = 0;
        self.items = vec![];
        self.emit = FNV0;
        self.emitted = vec![];
        self.covers = vec![];
        self.merge = None;
        self.randctr = 0;
        self.hlog.clear();
        self.hclass.clear();
        self.s.reset();
        if self.d.len() > 3_000_000 {
            self.d = Dag::new();
        }
        self.image_dirty = false;
    }

    pub fn run(&mut self, entry: u32, item: &Item) -> PathResult {
        self.reset();
        self.model = item.model.clone();
        self.bound = item.bound;
        self.check = item.check;
        self.fuel = self.cfg.fuel;
        let r = self.push_frame(entry, &[]).and_then(|_| self.interp());
        let outcome = match r {
            Ok(()) => Outcome::Done,
            Err(Stop::Out(o)) => o,
            Err(_) => Outcome::Error("merge escape".into()),
        };
        let trace = match outcome {
            Outcome::Error(_) | Outcome::Abort(_) | Outcome::Fuel => self
                .frames
                .iter()
                .rev()
                .take(40)
                .map(|f| self.prog.funcs[f.func as usize].name.clone())
                .collect(),
            _ => vec![],
        };
        let mut input = self.model.clone();
        input.truncate(self.nvars);
        input.resize(self.nvars, 0);
        PathResult {
            outcome,
            input,
            emit: self.emit,
            emitted: std::mem::take(&mut self.emitted),
            covers: std::mem::take(&mut self.covers),
            steps: self.cfg.fuel - self.fuel,
            branches: self.bidx,
            new_items: std::mem::take(&mut self.items),
            trace,
        }
    }

    // ---------- memory ----------
    #[inline]
    fn ok(&self, a: u64, n: u64) -> X<()> {
        if a < GBASE || a.wrapping_add(n) > TOP || a.wrapping_add(n) < a {
            return Err(Stop::Out(Outcome::Abort(format!("invalid access to {a:#x}"))));
        }
        Ok(())
    }
    #[inline]
    fn raw(&self, a: u64, n: u64) -> u128 {
        unsafe {
            let p = self.mem.add((a - GBASE) as usize);
            match n {
                1 => *p as u128,
                2 => (p as *const u16).read_unaligned() as u128,
                4 => (p as *const u32).read_unaligned() as u128,
                8 => (p as *const u64).read_unaligned() as u128,
                16 => (p as *const u128).read_unaligned(),
                _ => {
                    let mut b = [0u8; 16];
                    std::ptr::copy_nonoverlapping(p, b.as_mut_ptr(), n as usize);
                    u128::from_le_bytes(b)
                }
            }
        }
    }
    #[inline]
    fn flagged(&self, a: u64, n: u64) -> bool {
        let x = (a >> BLK) as usize;
        let y = ((a + n - 1) >> BLK) as usize;
        if x == y {
            self.flag[x] != 0
        } else {
            (x..=y).any(|i| self.flag[i] != 0)
        }
    }
    fn shadow(&self, a: u64) -> E {
        if self.flag[(a >> BLK) as usize] == 0 {
            return 0;
        }
        unsafe { *self.sh.add((a - GBASE) as usize) }
    }
    fn set_shadow(&mut self, a: u64, e: E) {
        let b = (a >> BLK) as usize;
        if self.flag[b] == 0 {
            if e == 0 {
                return;
            }
            self.flag[b] = 1;
            self.dirty.push(b as u32);
        }
        unsafe { *self.sh.add((a - GBASE) as usize) = e }
    }
    fn bytes(&self, a: u64, n: u64) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.mem.add((a - GBASE) as usize), n as usize) }
    }
    fn byte_v(&self, a: u64) -> V {
        let lo = self.raw(a, 1) as u64;
        let e = self.shadow(a);
        self.known(V { lo, hi: 0, e })
    }
    #[inline]
    fn known(&self, v: V) -> V {
        if v.e != 0 && self.merge.is_none() {
            if self.s.known.contains_key(&v.e) {
                return V { lo: v.lo, hi: v.hi, e: 0 };
            }
        }
        if v.e != 0 && self.merge.is_some() {
            if let Some(k) = self.s.known.get(&v.e) {
                return V { lo: *k as u64, hi: (*k >> 64) as u64, e: 0 };
            }
        }
        v
    }
    fn load(&mut self, w: u8, a: u64) -> X<V> {
        let n = (w as u64 + 7) / 8;
        self.ok(a, n)?;
        let x = self.raw(a, n) & mask(w);
        let mut v = V { lo: x as u64, hi: (x >> 64) as u64, e: 0 };
        if self.flagged(a, n) {
            let mut any = false;
            for i in 0..n {
                if self.shadow(a + i) != 0 {
                    any = true;
                    break;
                }
            }
            if any {
                let mut e: E = 0;
                let mut sym = false;
                let mut conc: u128 = 0;
                for i in 0..n {
                    let b = self.byte_v(a + i);
                    conc |= (b.lo as u128) << (8 * i);
                    let be = if b.e != 0 {
                        sym = true;
                        b.e
                    } else {
                        self.d.konst(b.lo as u128, 8)
                    };
                    e = if i == 0 { be } else { self.d.concat(be, e) };
                }
                if self.merge.is_some() {
                    let x = conc & mask(w);
                    v.lo = x as u64;
                    v.hi = (x >> 64) as u64;
                }
                if sym {
                    if (n * 8) as u8 != w {
                        e = self.d.extract(e, 0, w);
                    }
                    v.e = e;
                    v = self.fold(v);
                }
            }
        }
        Ok(v)
    }
    /// engine self-check: the expression must evaluate to the concrete value under the current model
    #[cold]
    fn selfcheck(&self, v: V) {
        if self.merge.is_none() {
            let mut d = Dag::clone_for_eval(&self.d);
            let x = d.eval(v.e, &self.model);
            if x != v.full() {
                panic!("self-check: {} evaluates to {x:#x}, concrete {:#x}", self.d.dump(v.e), v.full());
            }
        }
    }
    /// drops the expression when it is constant or known on this path
    #[inline]
    fn fold(&self, v: V) -> V {
        if self.cfg.trace && v.e != 0 {
            self.selfcheck(v);
        }
        if let Some(k) = self.d.kval(v.e) {
            return V { lo: k as u64, hi: (k >> 64) as u64, e: 0 };
        }
        self.known(v)
    }
    fn store(&mut self, w: u8, a: u64, v: V) -> X<()> {
        let n = (w as u64 + 7) / 8;
        self.ok(a, n)?;
        if let Some(m) = &self.merge {
            if a < m.sp || a >= STACK_BASE + STACK_SIZE {
                return Err(Stop::MergeBail);
            }
        }
        unsafe {
            let p = self.mem.add((a - GBASE) as usize);
            match n {
                1 => *p = v.lo as u8,
                2 => (p as *mut u16).write_unaligned(v.lo as u16),
                4 => (p as *mut u32).write_unaligned(v.lo as u32),
                8 => (p as *mut u64).write_unaligned(v.lo),
                _ => {
                    let b = v.full().to_le_bytes();
                    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n as usize);
                }
            }
        }
        if v.e != 0 {
            let mut e = v.e;
            if (n * 8) as u8 != w {
                e = self.d.zext(e, (n * 8) as u8);
            }
            for i in 0..n {
                let b = self.d.extract(e, 8 * i as u8, 8);
                let b = if self.d.kval(b).is_some() { 0 } else { b };
                self.set_shadow(a + i, b);
            }
        } else if self.flagged(a, n) {
            for i in 0..n {
                self.set_shadow(a + i, 0);
            }
        }
        Ok(())
    }
    fn copy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        self.ok(d, n)?;
        self.ok(s, n)?;
        if let Some(m) = &self.merge {
            if d < m.sp || d >= STACK_BASE + STACK_SIZE {
                return Err(Stop::MergeBail);
            }
        }
        let fs = self.flagged(s, n);
        let fd = self.flagged(d, n);
        unsafe {
            std::ptr::copy(self.mem.add((s - GBASE) as usize), self.mem.add((d - GBASE) as usize), n as usize);
        }
        if fs {
            if d <= s {
                for i in 0..n {
                    let e = self.shadow(s + i);
                    self.set_shadow(d + i, e);
                }
            } else {
                for i in (0..n).rev() {
                    let e = self.shadow(s + i);
                    self.set_shadow(d + i, e);
                }
            }
        } else if fd {
            for i in 0..n {
                self.set_shadow(d + i, 0);
            }
        }
        Ok(())
    }
    fn fill(&mut self, d: u64, v: V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        self.ok(d, n)?;
        if let Some(m) = &self.merge {
            if d < m.sp || d >= STACK_BASE + STACK_SIZE {
                return Err(Stop::MergeBail);
            }
        }
        unsafe { std::ptr::write_bytes(self.mem.add((d - GBASE) as usize), v.lo as u8, n as usize) }
        if v.e != 0 || self.flagged(d, n) {
            for i in 0..n {
                self.set_shadow(d + i, v.e);
            }
        }
        Ok(())
    }
    fn alloc(&mut self, size: u64, align: u64) -> X<u64> {
        if self.merge.is_some() {
            return Err(Stop::MergeBail);
        }
        let al = align.max(16);
        let a = (self.heap + al - 1) / al * al;
        if a + size + 16 >= TOP {
            return Err(Stop::Out(Outcome::Abort(format!("out of heap ({size} bytes requested)"))));
        }
        self.heap = a + size.max(1) + 16;
        self.allocs.insert(a, size);
        Ok(a)
    }
    /// bounds of the object containing `a` (globals and heap)
    fn object(&self, a: u64) -> Option<(u64, u64)> {
        if a >= HEAP_BASE {
            let (&s, &n) = self.allocs.range(..=a).next_back()?;
            return if a < s + n { Some((s, n)) } else { None };
        }
        if a < STACK_BASE {
            let g = &self.prog.globals;
            let i = g.partition_point(|x| x.addr <= a);
            if i == 0 {
                return None;
            }
            let x = &g[i - 1];
            // the constant partition is sorted by address as well (mutable ones come first)
            return if a < x.addr + x.size { Some((x.addr, x.size)) } else { None };
        }
        None
    }

    // ---------- operands ----------
    #[inline]
    fn get(&self, o: Opn) -> V {
        match o {
            Opn::R(r) => {
                let v = unsafe { *self.regs.get_unchecked((self.frames.last().unwrap_unchecked().base + r) as usize) };
                if v.e != 0 {
                    self.known(v)
                } else {
                    v
                }
            }
            Opn::K(k) => {
                let c = self.prog.consts[k as usize];
                V { lo: c.0, hi: c.1, e: 0 }
            }
        }
    }
    #[inline]
    fn set(&mut self, dst: u32, v: V) {
        let b = self.frames.last().unwrap().base;
        self.regs[(b + dst) as usize] = v;
    }
    fn ex(&mut self, v: V, w: u8) -> E {
        if v.e != 0 {
            debug_assert_eq!(self.d.w(v.e), w);
            v.e
        } else {
            self.d.konst(v.full(), w)
        }
    }
    /// makes a value concrete by splitting the path over its feasible values
    fn conc(&mut self, v: V, w: u8) -> X<u64> {
        let v = self.known(v);
        if v.e == 0 {
            return Ok(v.lo);
        }
        if self.merge.is_some() {
            return Err(Stop::MergeBail);
        }
        let _ = w;
        // strip an additive constant so the symbolic part itself becomes known
        let n = self.d.n[v.e as usize];
        let (e, val) = if n.op == Op::Add && self.d.kval(n.b).is_some() {
            let k = self.d.kval(n.b).unwrap();
            (n.a, v.full().wrapping_sub(k) & mask(n.w))
        } else {
            (v.e, v.full())
        };
        let mut e = e;
        let mut val = val;
        loop {
            let n = self.d.n[e as usize];
            match n.op {
                Op::ZExt => e = n.a,
                Op::Concat if self.d.kval(n.b).is_some() => {
                    val >>= self.d.w(n.b);
                    e = n.a;
                }
                _ => break,
            }
        }
        let w = self.d.w(e);
        let idx = self.bidx;
        self.bidx += 1;
        let kv = self.d.konst(val, w);
        let lit = self.d.icmp(Op::Eq, e, kv);
        if idx >= self.bound {
            let mut extra = vec![self.d.not(lit)];
            let mut n = 0;
            loop {
                match self.s.feasible(&mut self.d, &extra, &self.model) {
                    Answer::Unsat => break,
                    Answer::Unknown => err!("solver gave no answer (concretisation)"),
                    Answer::Sat(m) => {
                        let x = self.d.eval(e, &m);
                        let k = self.d.konst(x, w);
                        let q = self.d.icmp(Op::Eq, e, k);
                        let check = mixh(self.hash, self.d.shape[q as usize] ^ self.d.vars[q as usize]);
                        self.items.push(Item { model: m, bound: idx + 1, check });
                        extra.push(self.d.not(q));
                        n += 1;
                        if n > 300 {
                            err!("concretisation of a value with more than 300 feasible values");
                        }
                    }
                }
            }
        }
        self.take(idx, lit)?;
        self.s.known.insert(v.e, v.full());
        self.s.known.insert(e, val);
        Ok(v.lo)
    }
    fn take(&mut self, idx: u32, lit: E) -> X<()> {
        self.hash = mixh(self.hash, self.d.shape[lit as usize] ^ self.d.vars[lit as usize]);
        if idx + 1 == self.bound && self.hash != self.check {
            err!("replay divergence at branch {idx}");
        }
        self.s.assume(&mut self.d, lit);
        Ok(())
    }
    /// symbolic two-way branch: returns the direction taken by the current model
    fn branch(&mut self, c: V) -> X<bool> {
        if c.e == 0 {
            return Ok(c.lo & 1 == 1);
        }
        if self.merge.is_some() {
            return self.merge_branch(c.e);
        }
        let taken = c.lo & 1 == 1;
        let ne = self.d.not(c.e);
        let (lit, other) = if taken { (c.e, ne) } else { (ne, c.e) };
        let idx = self.bidx;
        self.bidx += 1;
        if idx >= self.bound {
            match self.s.feasible(&mut self.d, &[other], &self.model) {
                Answer::Unsat => {}
                Answer::Unknown => err!("solver gave no answer (branch)"),
                Answer::Sat(m) => {
                    let check = mixh(self.hash, self.d.shape[other as usize] ^ self.d.vars[other as usize]);
                    self.items.push(Item { model: m, bound: idx + 1, check });
                    let f = self.frames.last().unwrap();
                    *self.branch_sites.entry((f.func as u64) << 32 | f.pc as u64).or_insert(0) += 1;
                }
            }
        }
        self.take(idx, lit)?;
        Ok(taken)
    }
    fn merge_branch(&mut self, c: E) -> X<bool> {
        // decisions are forced; infeasible sides cost only a useless ite arm
        let m = self.merge.as_mut().unwrap();
        // constant under the conditions already taken inside the merge?
        for &k in &m.cond {
            if k == c {
                return Ok(true);
            }
            let nk = self.d.not(k);
            if nk == c {
                return Ok(false);
            }
        }
        // prune with per-byte sets
        let vm = self.d.vars[c as usize];
        if vm.count_ones() == 1 {
            let v = vm.trailing_zeros() as usize;
            let mut dom = self.s.dom[v];
            let conds = m.cond.clone();
            for k in conds {
                if self.d.vars[k as usize] == vm {
                    let s = self.d.set(k);
                    for i in 0..4 {
                        dom[i] &= s[i];
                    }
                }
            }
            let s = self.d.set(c);
            let t = (0..4).any(|i| dom[i] & s[i] != 0);
            let f = (0..4).any(|i| dom[i] & !s[i] != 0);
            if t != f {
                return Ok(t);
            }
        }
        let m = self.merge.as_mut().unwrap();
        let dir = if m.pos < m.decisions.len() {
            m.decisions[m.pos]
        } else {
            if m.decisions.len() >= 40 {
                return Err(Stop::MergeBail);
            }
            m.decisions.push(true);
            true
        };
        m.pos += 1;
        let lit = if dir { c } else { self.d.not(c) };
        self.merge.as_mut().unwrap().cond.push(lit);
        Ok(dir)
    }

    // ---------- frames ----------
    fn push_frame(&mut self, f: u32, args: &[V]) -> X<()> {
        let prog = self.prog;
        let fu = &prog.funcs[f as usize];
        if fu.decl {
            err!("call of external function {}", fu.name);
        }
        self.called[f as usize] = true;
        let base = match self.frames.last() {
            Some(t) => t.base + prog.funcs[t.func as usize].nregs,
            None => 0,
        };
        let need = (base + fu.nregs) as usize;
        if self.regs.len() < need + 64 {
            self.regs.resize(need * 2 + 64, V::default());
        }
        if self.frames.len() > 60_000 {
            return Err(Stop::Out(Outcome::Abort("stack overflow".into())));
        }
        for (i, s) in fu.params.iter().enumerate() {
            self.regs[(base + s) as usize] = args.get(i).copied().unwrap_or_default();
        }
        self.frames.push(Frame { func: f, pc: 0, base, sp: self.sp });
        Ok(())
    }
    fn goto(&mut self, e: &Edge) {
        let fi = self.frames.len() - 1;
        let base = self.frames[fi].base;
        match e.phis.len() {
            0 => {}
            1 => {
                let v = self.get(e.phis[0].1);
                self.regs[(base + e.phis[0].0) as usize] = v;
            }
            n => {
                let mut tmp: [V; 24] = [V::default(); 24];
                if n <= 24 {
                    for i in 0..n {
                        tmp[i] = self.get(e.phis[i].1);
                    }
                    for i in 0..n {
                        self.regs[(base + e.phis[i].0) as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<V> = e.phis.iter().map(|p| self.get(p.1)).collect();
                    for i in 0..n {
                        self.regs[(base + e.phis[i].0) as usize] = t[i];
                    }
                }
            }
        }
        self.frames[fi].pc = e.pc;
    }
    /// returns values to the caller frame and continues there
    fn ret_to_caller(&mut self, vals: &[V]) {
        let prog = self.prog;
        let fi = self.frames.len() - 1;
        let fr = self.frames[fi];
        if let Inst::Call { dst, inv, .. } = &prog.funcs[fr.func as usize].code[fr.pc as usize] {
            for (i, v) in vals.iter().enumerate() {
                self.regs[(fr.base + dst + i as u32) as usize] = *v;
            }
            match inv {
                Some(x) => self.goto(&x.0),
                None => self.frames[fi].pc += 1,
            }
        }
    }
    /// unwinds from a call instruction in the top frame
    fn unwind(&mut self) -> X<()> {
        let prog = self.prog;
        loop {
            if let Some(m) = &self.merge {
                if self.frames.len() < m.depth {
                    return Err(Stop::MergeBail);
                }
            }
            let Some(fr) = self.frames.last().copied() else {
                return Err(Stop::Out(Outcome::Panic("uncaught panic".into())));
            };
            let fu = &prog.funcs[fr.func as usize];
            if let Inst::Call { inv: Some(x), .. } = &fu.code[fr.pc as usize] {
                let e = &fu.unwind_edges[x.1 as usize];
                self.goto(e);
                return Ok(());
            }
            self.sp = fr.sp;
            self.frames.pop();
        }
    }

    // ---------- arithmetic ----------
    fn bin(&mut self, op: BinOp, w: u8, a: V, b: V) -> X<V> {
        if a.e == 0 && b.e == 0 {
            if w <= 64 {
                let (x, y) = (a.lo, b.lo);
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w as u32)) as i64) >> (64 - w as u32);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::AShr => (sx(x) >> y.min(63)) as u64,
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                        return Err(Stop::Out(Outcome::Abort("division by zero".into())))
                    }
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                    BinOp::SRem => sx(x).wrapping_rem(sx(y)) as u64,
                };
                return Ok(V::c(r & m));
            }
            let r = Dag::apply(eop(op), w, a.full(), b.full());
            return Ok(V { lo: r as u64, hi: (r >> 64) as u64, e: 0 });
        }
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            if b.e != 0 {
                if self.merge.is_some() {
                    return Err(Stop::MergeBail);
                }
                // a zero divisor is undefined behaviour; Rust checks before dividing
                let z = self.d.konst(0, w);
                let q = self.d.icmp(Op::Eq, b.e, z);
                let nz = self.d.not(q);
                self.s.assume(&mut self.d, nz);
            } else if b.full() == 0 {
                return Err(Stop::Out(Outcome::Abort("division by zero".into())));
            }
        }
        let r = Dag::apply(eop(op), w, a.full(), b.full());
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.d.bin(eop(op), x, y);
        Ok(self.fold(V { lo: r as u64, hi: (r >> 64) as u64, e }))
    }
    fn icmp(&mut self, p: u8, w: u8, a: V, b: V) -> V {
        let (op, swap, neg) = match p {
            32 => (Op::Eq, false, false),
            33 => (Op::Eq, false, true),
            34 => (Op::Ult, true, false),
            35 => (Op::Ule, true, false),
            36 => (Op::Ult, false, false),
            37 => (Op::Ule, false, false),
            38 => (Op::Slt, true, false),
            39 => (Op::Sle, true, false),
            40 => (Op::Slt, false, false),
            _ => (Op::Sle, false, false),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        let r = if w == 64 {
            match op {
                Op::Eq => a.lo == b.lo,
                Op::Ult => a.lo < b.lo,
                Op::Ule => a.lo <= b.lo,
                Op::Slt => (a.lo as i64) < (b.lo as i64),
                _ => (a.lo as i64) <= (b.lo as i64),
            }
        } else {
            Dag::cmp(op, w, a.full(), b.full())
        } ^ neg;
        if a.e == 0 && b.e == 0 {
            return V::c(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut e = self.d.icmp(op, x, y);
        if neg {
            e = self.d.not(e);
        }
        self.fold(V { lo: r as u64, hi: 0, e })
    }
    fn select(&mut self, w: u8, c: V, a: V, b: V) -> V {
        if c.e == 0 {
            return if c.lo & 1 == 1 { a } else { b };
        }
        let v = if c.lo & 1 == 1 { a } else { b };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.d.ite(c.e, x, y);
        self.fold(V { lo: v.lo, hi: v.hi, e })
    }

    /// load through a possibly symbolic pointer
    fn load_p(&mut self, w: u8, p: V, off: u32) -> X<V> {
        if p.e == 0 {
            return self.load(w, p.lo.wrapping_add(off as u64));
        }
        let n = (w as u64 + 7) / 8;
        let vm = self.d.vars[p.e as usize];
        if vm.count_ones() == 1 && w <= 64 {
            let var = vm.trailing_zeros() as usize;
            // any feasible address to find the object
            let mut tab = Box::new([0u64; 256]);
            let dom = self.s.dom[var];
            let mut obj = None;
            let mut good = true;
            let mut model = [0u8; MAXVARS];
            let mut fill = None;
            let mut dc = vec![];
            for x in 0..256usize {
                if dom[x / 64] >> (x % 64) & 1 == 0 {
                    dc.push(x);
                    continue;
                }
                model[var] = x as u8;
                let a = (self.d.eval(p.e, &model) as u64).wrapping_add(off as u64);
                if obj.is_none() {
                    obj = self.object(a);
                }
                match obj {
                    Some((s, l)) if a >= s && a + n <= s + l && !self.flagged(a, n) => {
                        let v = (self.raw(a, n) & mask(w)) as u64;
                        tab[x] = v;
                        fill = Some(v);
                    }
                    _ => {
                        // inside a merge the address may be out of range only on infeasible sides
                        good = false;
                        break;
                    }
                }
            }
            if good {
                if let Some(fv) = fill {
                    // don't-care entries repeat their predecessor (or the last value)
                    for x in dc {
                        tab[x] = if x > 0 { tab[x - 1] } else { fv };
                    }
                    let idx = self.d.var(var);
                    let cur = if self.merge.is_some() {
                        0
                    } else {
                        tab[*self.model.get(var).unwrap_or(&0) as usize]
                    };
                    let e = self.d.table(idx, tab, w);
                    return Ok(self.fold(V { lo: cur, hi: 0, e }));
                }
            }
        }
        let a = self.conc(p, 64)?;
        self.load(w, a.wrapping_add(off as u64))
    }

    fn cmp_mem(&mut self, a: u64, b: u64, n: u64, order: bool) -> X<V> {
        if n == 0 {
            return Ok(V::c(0));
        }
        self.ok(a, n)?;
        self.ok(b, n)?;
        if !self.flagged(a, n) && !self.flagged(b, n) {
            let r = self.bytes(a, n).cmp(self.bytes(b, n));
            return Ok(V::c((r as i32) as u32 as u64));
        }
        let mut xs: Vec<(V, V)> = vec![];
        for i in 0..n {
            let (x, y) = (self.byte_v(a + i), self.byte_v(b + i));
            xs.push((x, y));
            if x.e == 0 && y.e == 0 && x.lo != y.lo {
                if !order {
                    // a definite difference anywhere decides inequality
                    return Ok(V::c(1));
                }
                break;
            }
        }
        let mut conc = 0i32;
        for (x, y) in &xs {
            if x.lo != y.lo {
                conc = if x.lo < y.lo { -1 } else { 1 };
                break;
            }
        }
        let zero = self.d.konst(0, 32);
        let one = self.d.konst(1, 32);
        if !order {
            let mut all = self.d.konst(1, 1);
            for (x, y) in &xs {
                let (p, q) = (self.ex(*x, 8), self.ex(*y, 8));
                let c = self.d.icmp(Op::Eq, p, q);
                all = self.d.bin(Op::And, all, c);
            }
            let e = self.d.ite(all, zero, one);
            return Ok(self.fold(V { lo: (conc != 0) as u64, hi: 0, e }));
        }
        let m1 = self.d.konst(0xffff_ffff, 32);
        let mut r = zero;
        for (x, y) in xs.iter().rev() {
            let (p, q) = (self.ex(*x, 8), self.ex(*y, 8));
            let eq = self.d.icmp(Op::Eq, p, q);
            let lt = self.d.icmp(Op::Ult, p, q);
            let ne = self.d.ite(lt, m1, one);
            r = self.d.ite(eq, r, ne);
        }
        Ok(self.fold(V { lo: conc as u32 as u64, hi: 0, e: r }))
    }

    fn new_var(&mut self) -> X<usize> {
        if self.merge.is_some() {
            return Err(Stop::MergeBail);
        }
        let i = self.nvars;
        if i >= MAXVARS || i >= self.cfg.max_input {
            err!("more than {} symbolic input bytes", self.cfg.max_input);
        }
        self.nvars += 1;
        if self.model.len() <= i {
            self.model.resize(i + 1, 0);
        }
        Ok(i)
    }
    /// fresh byte restricted to a set
    fn new_in(&mut self, set: &[bool; 256], prefer: u8) -> X<V> {
        let i = self.new_var()?;
        if !set[self.model[i] as usize] {
            self.model[i] = prefer;
        }
        let e = self.d.var(i);
        let mut t = Box::new([0u64; 256]);
        for x in 0..256 {
            t[x] = set[x] as u64;
        }
        let c = self.d.table(e, t, 1);
        self.s.assume(&mut self.d, c);
        let v = V { lo: self.model[i] as u64, hi: 0, e };
        Ok(self.known(v))
    }

    fn builtin(&mut self, id: u16, name: &str, a: &[V]) -> X<Option<Vec<V>>> {
        use bi::*;
        let ret = |x: u64| Ok(Some(vec![V::c(x)]));
        if self.merge.is_some() && !matches!(id, BCMP | MEMCMP | MEMCPY | MEMSET | STRLEN | MEMCHR | RETZERO) {
            return Err(Stop::MergeBail);
        }
        match id {
            MALLOC => {
                let n = self.conc(a[0], 64)?;
                let p = self.alloc(n, 16)?;
                ret(p)
            }
            CALLOC => {
                let n = self.conc(a[0], 64)?;
                let m = self.conc(a[1], 64)?;
                let p = self.alloc(n.wrapping_mul(m), 16)?;
                self.fill(p, V::c(0), n.wrapping_mul(m))?;
                ret(p)
            }
            REALLOC => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                let q = self.alloc(n, 16)?;
                if p != 0 {
                    let old = *self.allocs.get(&p).unwrap_or(&0);
                    self.copy(q, p, old.min(n))?;
                }
                ret(q)
            }
            POSIX_MEMALIGN => {
                let al = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                let p = self.alloc(n, al)?;
                let o = self.conc(a[0], 64)?;
                self.store(64, o, V::c(p))?;
                ret(0)
            }
            KEYCREATE => {
                let o = self.conc(a[0], 64)?;
                self.store(32, o, V::c(77))?;
                ret(0)
            }
            FREE | NOP => Ok(Some(vec![])),
            ATEXIT | RETZERO => ret(0),
            GETENV => ret(0),
            WRITE => {
                let n = self.conc(a[2], 64)?;
                ret(n)
            }
            ERRNO => {
                let p = self.alloc(4, 16)?;
                ret(p)
            }
            BCMP | MEMCMP => {
                let x = self.conc(a[0], 64)?;
                let y = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                Ok(Some(vec![self.cmp_mem(x, y, n, id == MEMCMP)?]))
            }
            STRLEN => {
                let mut p = self.conc(a[0], 64)?;
                let s = p;
                loop {
                    let b = self.load(8, p)?;
                    if self.conc(b, 8)? == 0 {
                        break;
                    }
                    p += 1;
                }
                ret(p - s)
            }
            MEMCHR => {
                let p = self.conc(a[0], 64)?;
                let c = a[1];
                let c8 = self.trunc(8, c);
                let n = self.conc(a[2], 64)?;
                for i in 0..n {
                    let b = self.load(8, p + i)?;
                    let q = self.icmp(32, 8, b, c8);
                    if self.branch(q)? {
                        return ret(p + i);
                    }
                }
                ret(0)
            }
            MEMCPY => {
                let d = self.conc(a[0], 64)?;
                let s = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                self.copy(d, s, n)?;
                ret(d)
            }
            MEMSET => {
                let d = self.conc(a[0], 64)?;
                let n = self.conc(a[2], 64)?;
                let v = self.trunc(8, a[1]);
                self.fill(d, v, n)?;
                ret(d)
            }
            RAISE => {
                self.exc = a[0].lo;
                self.unwind()?;
                Ok(None)
            }
            ABORT => Err(Stop::Out(Outcome::Abort(name.into()))),
            HWRITE | HWRITE_STR => {
                let h = self.conc(a[0], 64)?;
                let p = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                if n > 0 {
                    self.ok(p, n)?;
                }
                let mut log = self.hlog.remove(&h).unwrap_or_default();
                for i in 0..n {
                    log.push(self.byte_v(p + i));
                }
                if id == HWRITE_STR {
                    log.push(V::c(0xff));
                }
                self.hlog.insert(h, log);
                Ok(Some(vec![]))
            }
            HFINISH => {
                // equal hashes exactly for equal inputs
                let h = self.conc(a[0], 64)?;
                let log = self.hlog.remove(&h).unwrap_or_default();
                let mut n = 0;
                let classes = std::mem::take(&mut self.hclass);
                let mut found = false;
                for c in &classes {
                    n += 1;
                    if c.len() != log.len() || c.iter().zip(&log).any(|(x, y)| x.e == 0 && y.e == 0 && x.lo != y.lo) {
                        continue;
                    }
                    let mut all = self.d.konst(1, 1);
                    let mut conc = true;
                    for (x, y) in c.iter().zip(&log) {
                        conc &= x.lo == y.lo;
                        if x.e != 0 || y.e != 0 {
                            let (p, q) = (self.ex(*x, 8), self.ex(*y, 8));
                            let e = self.d.icmp(Op::Eq, p, q);
                            all = self.d.bin(Op::And, all, e);
                        }
                    }
                    let v = self.fold(V { lo: conc as u64, hi: 0, e: all });
                    match self.branch(v) {
                        Ok(true) => {
                            found = true;
                            break;
                        }
                        Ok(false) => {}
                        Err(x) => {
                            self.hclass = classes;
                            return Err(x);
                        }
                    }
                }
                self.hclass = classes;
                if !found {
                    n += 1;
                    self.hclass.push(log);
                }
                ret((n as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15))
            }
            SYSCALL => {
                let nr = self.conc(a[0], 64)?;
                match nr {
                    318 => self.builtin(GETRANDOM, name, &a[1..]),
                    202 => ret(0), // futex wake: nobody waits in a single-threaded run
                    _ => err!("system call {nr}"),
                }
            }
            GETRANDOM => {
                // deterministic stand-in; properties that depend on randomness use the symbolic runtime instead
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                for i in 0..n {
                    self.randctr = self.randctr.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    self.store(8, p + i, V::c(self.randctr >> 56))?;
                }
                ret(n)
            }
            SYM_BYTES => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                for i in 0..n {
                    let v = self.new_var()?;
                    let e = self.d.var(v);
                    let lo = self.model[v] as u64;
                    self.store(8, p + i, V { lo, hi: 0, e })?;
                }
                Ok(Some(vec![]))
            }
            SYM_FROM => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                let b = self.bytes(p, n).to_vec();
                let mut set = [false; 256];
                for &x in &b {
                    set[x as usize] = true;
                }
                Ok(Some(vec![self.new_in(&set, b[0])?]))
            }
            SYM_BELOW | SYM_CHOICE => {
                let n = self.conc(a[0], 32)?;
                if n == 0 || n > 256 {
                    err!("__sym_below({n})");
                }
                let mut set = [false; 256];
                for x in 0..n {
                    set[x as usize] = true;
                }
                let v = self.new_in(&set, 0)?;
                let e = if v.e != 0 { self.d.zext(v.e, 32) } else { 0 };
                let r = V { lo: v.lo, hi: 0, e };
                if id == SYM_CHOICE {
                    let x = self.conc(r, 32)?;
                    return Ok(Some(vec![V { lo: x, hi: 0, e: 0 }]));
                }
                Ok(Some(vec![r]))
            }
            SYM_ASSUME => {
                let c = self.trunc(1, a[0]);
                if c.e == 0 {
                    if c.lo & 1 == 0 {
                        return Err(Stop::Out(Outcome::Infeasible));
                    }
                    return Ok(Some(vec![]));
                }
                if c.lo & 1 == 0 {
                    if self.bidx >= self.bound {
                        match self.s.feasible(&mut self.d, &[c.e], &self.model) {
                            Answer::Sat(m) => {
                                let it = Item { model: m, bound: self.bidx, check: self.hash };
                                self.items.push(it);
                            }
                            Answer::Unsat => {}
                            Answer::Unknown => err!("solver gave no answer (assume)"),
                        }
                    } else {
                        err!("assumption violated before the branch bound");
                    }
                    return Err(Stop::Out(Outcome::Infeasible));
                }
                self.s.assume(&mut self.d, c.e);
                Ok(Some(vec![]))
            }
            SYM_FAIL => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                let s = String::from_utf8_lossy(self.bytes(p, n)).into_owned();
                Err(Stop::Out(Outcome::Fail(s)))
            }
            SYM_EMIT => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                if n > 0 {
                    self.ok(p, n)?;
                    let b = self.bytes(p, n).to_vec();
                    self.emit = fnv(self.emit, &b);
                    if self.emitted.len() < 4096 {
                        self.emitted.extend_from_slice(&b);
                        self.emitted.push(b'\n');
                    }
                }
                self.emit = fnv(self.emit, &[0xff]);
                Ok(Some(vec![]))
            }
            SYM_COVER => {
                let p = self.conc(a[0], 64)?;
                let n = self.conc(a[1], 64)?;
                let s = String::from_utf8_lossy(self.bytes(p, n)).into_owned();
                if !self.covers.contains(&s) {
                    self.covers.push(s);
                }
                Ok(Some(vec![]))
            }
            _ => err!("builtin {name}"),
        }
    }
    fn trunc(&mut self, w: u8, v: V) -> V {
        let x = v.full() & mask(w);
        let mut r = V { lo: x as u64, hi: (x >> 64) as u64, e: 0 };
        if v.e != 0 {
            let sw = self.d.w(v.e);
            r.e = if sw > w { self.d.extract(v.e, 0, w) } else { v.e };
            r = self.fold(r);
        }
        r
    }

    /// Runs a call of a side-effect-free function on all its internal paths and joins the results.
    fn call_merged(&mut self, f: u32, args: &[V]) -> X<Option<Vec<V>>> {
        if *self.merge_fail.get(&f).unwrap_or(&0) > 20 {
            return Ok(None);
        }
        let frames = self.frames.len();
        let sp = self.sp;
        let mut results: Vec<(E, Vec<V>)> = vec![];
        let mut decisions: Vec<bool> = vec![];
        let fuel0 = self.fuel;
        loop {
            self.merge = Some(Box::new(Merge {
                depth: frames + 1,
                sp,
                decisions: std::mem::take(&mut decisions),
                pos: 0,
                cond: vec![],
                ret: vec![],
                steps_limit: self.fuel.saturating_sub(20_000),
            }));
            let r = self.push_frame(f, args).and_then(|_| self.interp());
            let m = self.merge.take().unwrap();
            self.frames.truncate(frames);
            self.sp = sp;
            match r {
                Err(Stop::MergeEnd) => {}
                _ => {
                    // anything else: give up on merging this call, execute it normally
                    *self.merge_fail.entry(f).or_insert(0) += 1;
                    self.fuel = fuel0;
                    return Ok(None);
                }
            }
            let mut c = self.d.konst(1, 1);
            for k in &m.cond {
                c = self.d.bin(Op::And, c, *k);
            }
            results.push((c, m.ret));
            if results.len() > 64 {
                *self.merge_fail.entry(f).or_insert(0) += 1;
                self.fuel = fuel0;
                return Ok(None);
            }
            decisions = m.decisions;
            decisions.truncate(m.pos);
            while let Some(false) = decisions.last() {
                decisions.pop();
            }
            match decisions.last_mut() {
                Some(d) => *d = false,
                None => break,
            }
        }
        self.merges += 1;
        let widths = self.prog.funcs[f as usize].retw.clone();
        let n = widths.len();
        let mut out = vec![];
        for i in 0..n {
            let mut e = 0;
            for (j, (c, vals)) in results.iter().enumerate().rev() {
                let x = self.ex(vals[i], widths[i]);
                e = if j == results.len() - 1 { x } else { self.d.ite(*c, x, e) };
            }
            let x = self.d.eval(e, &self.model);
            let v = V { lo: x as u64, hi: (x >> 64) as u64, e };
            out.push(self.fold(v));
        }
        Ok(Some(out))
    }

    fn interp(&mut self) -> X<()> {
        let prog = self.prog;
        let stop_depth = if self.merge.is_some() { self.frames.len() } else { 0 };
        loop {
            let fr = match self.frames.last() {
                Some(f) => *f,
                None => return Ok(()),
            };
            let fu = &prog.funcs[fr.func as usize];
            let code = &fu.code;
            let mut pc = fr.pc as usize;
            let top = self.frames.len() - 1;
            // straight-line loop within one frame
            loop {
                if self.fuel == 0 {
                    return Err(Stop::Out(Outcome::Fuel));
                }
                self.fuel -= 1;
                if let Some(m) = &self.merge {
                    if self.fuel < m.steps_limit {
                        return Err(Stop::MergeBail);
                    }
                }
                match &code[pc] {
                    Inst::Bin { op, w, dst, a, b } => {
                        let (a, b) = (self.get(*a), self.get(*b));
                        let v = self.bin(*op, *w, a, b)?;
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::ICmp { p, w, dst, a, b } => {
                        let (a, b) = (self.get(*a), self.get(*b));
                        let v = self.icmp(*p, *w, a, b);
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::Mov { dst, a } => {
                        let v = self.get(*a);
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::Trunc { w, dst, a } => {
                        let v = self.get(*a);
                        let v = self.trunc(*w, v);
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::ZExt { w, dst, a, .. } => {
                        let mut v = self.get(*a);
                        if v.e != 0 {
                            v.e = self.d.zext(v.e, *w);
                            v = self.fold(v);
                        }
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::SExt { from, w, dst, a } => {
                        let v = self.get(*a);
                        let x = sext(v.full(), *from) as u128 & mask(*w);
                        let mut r = V { lo: x as u64, hi: (x >> 64) as u64, e: 0 };
                        if v.e != 0 {
                            r.e = self.d.sext(v.e, *w);
                            r = self.fold(r);
                        }
                        self.regs[(fr.base + dst) as usize] = r;
                    }
                    Inst::BitCast { sn, sw, dn, dw, dst, a } => {
                        let mut bits = 0u128;
                        let mut sym = false;
                        let vs: Vec<V> = a.iter().map(|x| self.get(*x)).collect();
                        for k in 0..*sn as usize {
                            bits |= vs[k].full() << (k as u32 * *sw as u32);
                            sym |= vs[k].e != 0;
                        }
                        let mut e = 0;
                        if sym {
                            for k in 0..*sn as usize {
                                let x = self.ex(vs[k], *sw);
                                e = if k == 0 { x } else { self.d.concat(x, e) };
                            }
                        }
                        for k in 0..*dn {
                            let x = bits >> (k * *dw as u32) & mask(*dw);
                            let mut v = V { lo: x as u64, hi: (x >> 64) as u64, e: 0 };
                            if e != 0 {
                                v.e = self.d.extract(e, (k * *dw as u32) as u8, *dw);
                                v = self.fold(v);
                            }
                            self.regs[(fr.base + dst + k) as usize] = v;
                        }
                    }
                    Inst::Select { w, dst, c, a, b } => {
                        let (c, a, b) = (self.get(*c), self.get(*a), self.get(*b));
                        // pointers and lengths stay concrete: both values become paths
                        let v = if *w == 64 && c.e != 0 && a.e == 0 && b.e == 0 && (a.lo != b.lo) && self.cfg.split_sel {
                            self.frames[top].pc = pc as u32;
                            if self.branch(c)? {
                                a
                            } else {
                                b
                            }
                        } else {
                            self.select(*w, c, a, b)
                        };
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::Alloca { dst, size, align, cnt } => {
                        let n = match cnt {
                            None => *size,
                            Some(c) => {
                                let c = self.get(*c);
                                self.conc(c, 64)? * *size
                            }
                        };
                        let al = (*align).max(16);
                        let a = (self.sp + al - 1) / al * al;
                        self.sp = a + n.max(1);
                        if self.sp > STACK_BASE + STACK_SIZE {
                            return Err(Stop::Out(Outcome::Abort("stack overflow".into())));
                        }
                        self.sp_max = self.sp_max.max(self.sp);
                        self.regs[(fr.base + dst) as usize] = V::c(a);
                    }
                    Inst::Load { w, dst, p, off } => {
                        let p = self.get(*p);
                        self.frames[top].pc = pc as u32;
                        let v = if p.e == 0 {
                            self.load(*w, p.lo.wrapping_add(*off as u64))?
                        } else {
                            self.load_p(*w, p, *off)?
                        };
                        self.regs[(fr.base + dst) as usize] = v;
                    }
                    Inst::Store { w, v, p, off } => {
                        let v = self.get(*v);
                        let p = self.get(*p);
                        let a = if p.e == 0 { p.lo } else { self.conc(p, 64)? };
                        self.store(*w, a.wrapping_add(*off as u64), v)?;
                    }
                    Inst::Gep { dst, base, off, idx } => {
                        let b = self.get(*base);
                        let mut lo = b.lo.wrapping_add(*off as u64);
                        let mut sym = b.e != 0;
                        if idx.is_empty() && !sym {
                            self.regs[(fr.base + dst) as usize] = V::c(lo);
                        } else {
                            for (o, w, s) in idx.iter() {
                                let v = self.get(*o);
                                let x = sext(v.full(), *w) as i64;
                                lo = lo.wrapping_add(x.wrapping_mul(*s) as u64);
                                sym |= v.e != 0;
                            }
                            let mut e = 0;
                            if sym {
                                e = self.ex(b, 64);
                                let k = self.d.konst(*off as u64 as u128, 64);
                                e = self.d.bin(Op::Add, e, k);
                                for (o, w, s) in idx.iter() {
                                    let v = self.get(*o);
                                    let x = self.ex(v, *w);
                                    let x = self.d.sext(x, 64);
                                    let k = self.d.konst(*s as u64 as u128, 64);
                                    let x = self.d.bin(Op::Mul, x, k);
                                    e = self.d.bin(Op::Add, e, x);
                                }
                            }
                            let mut v = V { lo, hi: 0, e };
                            if e != 0 {
                                v = self.fold(v);
                            }
                            self.regs[(fr.base + dst) as usize] = v;
                        }
                    }
                    Inst::Br(e) => {
                        self.goto(e);
                        pc = e.pc as usize;
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let c = self.get(*c);
                        let d = if c.e == 0 {
                            c.lo & 1 == 1
                        } else {
                            self.frames[top].pc = pc as u32;
                            self.branch(c)?
                        };
                        let e = if d { t } else { f };
                        self.goto(e);
                        pc = e.pc as usize;
                        continue;
                    }
                    Inst::Switch { w, v, cases, edges } => {
                        let v = self.get(*v);
                        let mut tgt = 0u32;
                        for (k, e) in cases.iter() {
                            if *k == v.full() {
                                tgt = *e;
                                break;
                            }
                        }
                        if v.e != 0 {
                            self.frames[top].pc = pc as u32;
                            tgt = self.switch(v, *w, cases, edges, tgt)?;
                        }
                        let e = &edges[tgt as usize];
                        self.goto(e);
                        pc = e.pc as usize;
                        continue;
                    }
                    Inst::Ret(vals) => {
                        let v: Vec<V> = vals.iter().map(|x| self.get(*x)).collect();
                        if self.merge.is_some() && self.frames.len() == stop_depth {
                            self.merge.as_mut().unwrap().ret = v;
                            return Err(Stop::MergeEnd);
                        }
                        self.sp = fr.sp;
                        self.frames.pop();
                        if self.frames.is_empty() {
                            return Ok(());
                        }
                        self.ret_to_caller(&v);
                        break;
                    }
                    Inst::Call { callee, args, dst: _, inv: _ } => {
                        self.frames[top].pc = pc as u32;
                        let f = match callee {
                            Callee::Asm => {
                                // only the empty black_box barrier occurs
                                self.ret_to_caller(&[]);
                                break;
                            }
                            Callee::Func(f) => *f,
                            Callee::Ptr(p) => {
                                let p = self.get(*p);
                                let a = self.conc(p, 64)?;
                                let i = a.wrapping_sub(CODE_BASE);
                                if i % 16 != 0 || i / 16 >= prog.funcs.len() as u64 {
                                    return Err(Stop::Out(Outcome::Abort(format!("call of bad pointer {a:#x}"))));
                                }
                                (i / 16) as u32
                            }
                        };
                        let mut buf: [V; 12] = [V::default(); 12];
                        let tmp: Vec<V>;
                        let av: &[V] = if args.len() <= 12 {
                            for (i, x) in args.iter().enumerate() {
                                buf[i] = self.get(*x);
                            }
                            &buf[..args.len()]
                        } else {
                            tmp = args.iter().map(|x| self.get(*x)).collect();
                            &tmp
                        };
                        let b = self.builtins[f as usize];
                        if b != 0 {
                            let r = self.builtin(b, &prog.funcs[f as usize].name, av)?;
                            if let Some(r) = r {
                                self.ret_to_caller(&r);
                            }
                        } else if self.cfg.merge
                            && self.merge.is_none()
                            && self.mergeable[f as usize]
                        {
                            match self.call_merged(f, av)? {
                                Some(r) => self.ret_to_caller(&r),
                                None => self.push_frame(f, av)?,
                            }
                        } else {
                            self.push_frame(f, av)?;
                        }
                        break;
                    }
                    Inst::Intr { id, w, n, dst, args } => {
                        self.frames[top].pc = pc as u32;
                        self.intrinsic(*id, *w, *n, *dst, args)?;
                    }
                    Inst::LandingPad { dst } => {
                        let x = self.exc;
                        self.regs[(fr.base + dst) as usize] = V::c(x);
                        self.regs[(fr.base + dst + 1) as usize] = V::c(0);
                    }
                    Inst::Resume { a } => {
                        let a = self.get(*a);
                        self.exc = a.lo;
                        self.sp = fr.sp;
                        self.frames.pop();
                        self.unwind()?;
                        break;
                    }
                    Inst::Unreachable => {
                        return Err(Stop::Out(Outcome::Abort("unreachable".into())));
                    }
                    Inst::Nop => {}
                    Inst::Rmw { op, w, dst, p, v } => {
                        let p = self.get(*p);
                        let a = self.conc(p, 64)?;
                        let v = self.get(*v);
                        let old = self.load(*w, a)?;
                        let new = match op {
                            0 => v,
                            1 => self.bin(BinOp::Add, *w, old, v)?,
                            2 => self.bin(BinOp::Sub, *w, old, v)?,
                            3 => self.bin(BinOp::And, *w, old, v)?,
                            4 => {
                                let x = self.bin(BinOp::And, *w, old, v)?;
                                let m = V { lo: mask(*w) as u64, hi: (mask(*w) >> 64) as u64, e: 0 };
                                self.bin(BinOp::Xor, *w, x, m)?
                            }
                            5 => self.bin(BinOp::Or, *w, old, v)?,
                            6 => self.bin(BinOp::Xor, *w, old, v)?,
                            _ => {
                                let p = match op {
                                    7 => 38,
                                    8 => 40,
                                    9 => 34,
                                    10 => 36,
                                    _ => err!("atomicrmw {op}"),
                                };
                                let c = self.icmp(p, *w, old, v);
                                self.select(*w, c, old, v)
                            }
                        };
                        self.store(*w, a, new)?;
                        self.regs[(fr.base + dst) as usize] = old;
                    }
                    Inst::CmpXchg { w, dst, p, c, n } => {
                        let p = self.get(*p);
                        let a = self.conc(p, 64)?;
                        let (c, n) = (self.get(*c), self.get(*n));
                        let old = self.load(*w, a)?;
                        let q = self.icmp(32, *w, old, c);
                        self.frames[top].pc = pc as u32;
                        let t = self.branch(q)?;
                        if t {
                            self.store(*w, a, n)?;
                        }
                        self.regs[(fr.base + dst) as usize] = old;
                        self.regs[(fr.base + dst + 1) as usize] = V::c(t as u64);
                    }
                    Inst::ExtractEl { n, dst, v, i, .. } => {
                        let i = self.get(*i);
                        let i = self.conc(i, 64)?;
                        if i >= *n as u64 {
                            err!("extractelement index");
                        }
                        let x = self.get(v[i as usize]);
                        self.regs[(fr.base + dst) as usize] = x;
                    }
                    Inst::InsertEl { n, dst, v, x, i } => {
                        let i = self.get(*i);
                        let i = self.conc(i, 64)?;
                        for k in 0..*n {
                            let y = if k as u64 == i { self.get(*x) } else { self.get(v[k as usize]) };
                            self.regs[(fr.base + dst + k) as usize] = y;
                        }
                    }
                    Inst::Unsupported(m) => {
                        err!("unsupported instruction: {}", prog.msgs[*m as usize]);
                    }
                }
                pc += 1;
            }
        }
    }

    fn switch(&mut self, v: V, w: u8, cases: &[(u128, u32)], edges: &[Edge], tgt: u32) -> X<u32> {
        // group edges by destination block and phi values: edges with the same target index are one alternative
        let mut conds: Vec<(u32, E)> = vec![];
        let mut any = self.d.konst(0, 1);
        let zero = self.d.konst(0, 1);
        for (k, e) in cases {
            let kk = self.d.konst(*k, w);
            let c = self.d.icmp(Op::Eq, v.e, kk);
            if c == zero {
                continue;
            }
            any = self.d.bin(Op::Or, any, c);
            let key = &edges[*e as usize];
            if let Some(p) = conds.iter_mut().find(|p| {
                let o = &edges[p.0 as usize];
                o.pc == key.pc && o.phis[..] == key.phis[..]
            }) {
                p.1 = self.d.bin(Op::Or, p.1, c);
            } else {
                conds.push((*e, c));
            }
        }
        let def = self.d.not(any);
        conds.push((0, def));
        if self.merge.is_some() {
            for i in 0..conds.len() - 1 {
                let (e, c) = conds[i];
                let cv = self.fold(V { lo: 0, hi: 0, e: c });
                if self.branch(cv)? {
                    return Ok(e);
                }
            }
            return Ok(0);
        }
        let same = |a: u32, b: u32| {
            let (x, y) = (&edges[a as usize], &edges[b as usize]);
            (a == 0) == (b == 0) && x.pc == y.pc && x.phis[..] == y.phis[..]
        };
        let idx = self.bidx;
        self.bidx += 1;
        let mut lit = 0;
        for &(e, c) in &conds {
            if same(e, tgt) {
                lit = c;
            } else if idx >= self.bound {
                match self.s.feasible(&mut self.d, &[c], &self.model) {
                    Answer::Unsat => {}
                    Answer::Unknown => err!("solver gave no answer (switch)"),
                    Answer::Sat(m) => {
                        let check = mixh(self.hash, self.d.shape[c as usize] ^ self.d.vars[c as usize]);
                        self.items.push(Item { model: m, bound: idx + 1, check });
                        let f = self.frames.last().unwrap();
                        *self.branch_sites.entry((f.func as u64) << 32 | f.pc as u64).or_insert(0) += 1;
                    }
                }
            }
        }
        if lit == 0 {
            err!("switch without literal");
        }
        self.take(idx, lit)?;
        Ok(tgt)
    }

    fn intrinsic(&mut self, id: Intr, w: u8, n: u32, dst: u32, args: &[Opn]) -> X<()> {
        let a: Vec<V> = args.iter().map(|x| self.get(*x)).collect();
        let base = self.frames.last().unwrap().base;
        macro_rules! out {
            ($v:expr) => {{
                let v = $v;
                self.regs[(base + dst) as usize] = v;
                return Ok(());
            }};
        }
        let sym = a.iter().any(|v| v.e != 0);
        match id {
            Intr::Nop => Ok(()),
            Intr::Memcpy => {
                let d = self.conc(a[0], 64)?;
                let s = self.conc(a[1], 64)?;
                let n = self.conc(a[2], 64)?;
                self.copy(d, s, n)
            }
            Intr::Memset => {
                let d = self.conc(a[0], 64)?;
                let n = self.conc(a[2], 64)?;
                self.fill(d, a[1], n)
            }
            Intr::Trap => Err(Stop::Out(Outcome::Abort("trap".into()))),
            Intr::Tls | Intr::Expect => out!(a[0]),
            Intr::IsConstant => out!(V::c(0)),
            Intr::PtrMask => {
                let v = self.bin(BinOp::And, 64, a[0], a[1])?;
                out!(v)
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match id {
                    Intr::UMax => 34,
                    Intr::UMin => 36,
                    Intr::SMax => 38,
                    _ => 40,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                let v = self.select(w, c, a[0], a[1]);
                out!(v)
            }
            Intr::UAddSat | Intr::USubSat => {
                if id == Intr::UAddSat {
                    let s = self.bin(BinOp::Add, w, a[0], a[1])?;
                    let o = self.icmp(36, w, s, a[0]);
                    let m = mask(w);
                    let v = self.select(w, o, V { lo: m as u64, hi: (m >> 64) as u64, e: 0 }, s);
                    out!(v)
                } else {
                    let s = self.bin(BinOp::Sub, w, a[0], a[1])?;
                    let o = self.icmp(36, w, a[0], a[1]);
                    let v = self.select(w, o, V::c(0), s);
                    out!(v)
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let op = match id {
                    Intr::UAddO | Intr::SAddO => BinOp::Add,
                    Intr::USubO | Intr::SSubO => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin(op, w, a[0], a[1])?;
                let o = match id {
                    Intr::UAddO => self.icmp(36, w, r, a[0]),
                    Intr::USubO => self.icmp(36, w, a[0], a[1]),
                    _ => {
                        // compute in double width
                        if w > 64 {
                            if sym {
                                err!("128-bit symbolic overflow multiply");
                            }
                            let o = a[0].full().checked_mul(a[1].full()).is_none();
                            let v = V::c(o as u64);
                            self.regs[(base + dst) as usize] = r;
                            self.regs[(base + dst + 1) as usize] = v;
                            return Ok(());
                        }
                        let dw = w * 2;
                        let signed = id != Intr::UMulO;
                        let x = self.widen(a[0], w, dw, signed);
                        let y = self.widen(a[1], w, dw, signed);
                        let p = self.bin(op, dw, x, y)?;
                        let rw = self.widen(r, w, dw, signed);
                        self.icmp(33, dw, p, rw)
                    }
                };
                self.regs[(base + dst) as usize] = r;
                self.regs[(base + dst + 1) as usize] = o;
                Ok(())
            }
            Intr::Fshl | Intr::Fshr => {
                if a[2].e != 0 {
                    let k = self.conc(a[2], w)?;
                    let _ = k;
                }
                let k = (a[2].full() % w as u128) as u64;
                let k = if id == Intr::Fshl { k } else { (w as u64 - k) % w as u64 };
                if k == 0 {
                    out!(if id == Intr::Fshl { a[0] } else { a[1] });
                }
                let x = self.bin(BinOp::Shl, w, a[0], V::c(k))?;
                let y = self.bin(BinOp::LShr, w, a[1], V::c(w as u64 - k))?;
                let v = self.bin(BinOp::Or, w, x, y)?;
                out!(v)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::BitReverse if !sym => {
                let x = a[0].full();
                let r = match id {
                    Intr::Ctlz => (x << (128 - w as u32)).leading_zeros().min(w as u32) as u128,
                    Intr::Cttz => x.trailing_zeros().min(w as u32) as u128,
                    Intr::Ctpop => x.count_ones() as u128,
                    Intr::Bswap => x.swap_bytes() >> (128 - w as u32),
                    _ => x.reverse_bits() >> (128 - w as u32),
                };
                out!(V { lo: r as u64, hi: (r >> 64) as u64, e: 0 })
            }
            Intr::Ctlz | Intr::Cttz => {
                // ite chain over the position of the first set bit
                let e = a[0].e;
                let mut r = self.d.konst(w as u128, w);
                for i in 0..w {
                    // scan from the least significant priority to the highest
                    let bit = if id == Intr::Ctlz { i } else { w - 1 - i };
                    let b = self.d.extract(e, bit, 1);
                    let k = self.d.konst(if id == Intr::Ctlz { w - 1 - bit } else { bit } as u128, w);
                    r = self.d.ite(b, k, r);
                }
                let x = self.d.eval(r, &self.model);
                let v = self.fold(V { lo: x as u64, hi: 0, e: r });
                out!(v)
            }
            Intr::Ctpop => {
                let e = a[0].e;
                let mut r = self.d.konst(0, w);
                for i in 0..w {
                    let b = self.d.extract(e, i, 1);
                    let b = self.d.zext(b, w);
                    r = self.d.bin(Op::Add, r, b);
                }
                let v = self.fold(V { lo: a[0].full().count_ones() as u64, hi: 0, e: r });
                out!(v)
            }
            Intr::Bswap => {
                let e = a[0].e;
                let mut r = 0;
                for i in 0..w / 8 {
                    let b = self.d.extract(e, i * 8, 8);
                    r = if i == 0 { b } else { self.d.concat(r, b) };
                }
                let x = a[0].full().swap_bytes() >> (128 - w as u32);
                let v = self.fold(V { lo: x as u64, hi: (x >> 64) as u64, e: r });
                out!(v)
            }
            Intr::Abs => {
                let neg = self.icmp(40, w, a[0], V::c(0));
                let m = self.bin(BinOp::Sub, w, V::c(0), a[0])?;
                let v = self.select(w, neg, m, a[0]);
                out!(v)
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = n as u8;
                let lt = self.icmp(if id == Intr::UCmp { 36 } else { 40 }, w, a[0], a[1]);
                let gt = self.icmp(if id == Intr::UCmp { 34 } else { 38 }, w, a[0], a[1]);
                let m1 = V::c(mask(rw) as u64);
                let t = self.select(rw, gt, V::c(1), V::c(0));
                let v = self.select(rw, lt, m1, t);
                out!(v)
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd | Intr::VecReduceXor => {
                let op = match id {
                    Intr::VecReduceOr => BinOp::Or,
                    Intr::VecReduceAnd => BinOp::And,
                    Intr::VecReduceAdd => BinOp::Add,
                    _ => BinOp::Xor,
                };
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.bin(op, w, r, *x)?;
                }
                out!(r)
            }
            _ => err!("intrinsic {:?} on symbolic value", id),
        }
    }
    fn widen(&mut self, v: V, w: u8, dw: u8, signed: bool) -> V {
        if signed {
            let x = sext(v.full(), w) as u128 & mask(dw);
            let mut r = V { lo: x as u64, hi: (x >> 64) as u64, e: 0 };
            if v.e != 0 {
                r.e = self.d.sext(v.e, dw);
                r = self.fold(r);
            }
            r
        } else {
            let mut r = v;
            if v.e != 0 {
                r.e = self.d.zext(v.e, dw);
                r = self.fold(r);
            }
            r
        }
    }
}

fn eop(b: BinOp) -> Op {
    match b {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}
