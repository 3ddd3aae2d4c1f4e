//! Minimal FFI to libz3 (QF_BV satisfiability of small queries).
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

static Z3_ERRORS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" fn on_error(_c: P, _e: c_int) {
    Z3_ERRORS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    n: usize,
    timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        let mut z = Z3 { ctx: std::ptr::null_mut(), n: 0, timeout_ms };
        z.renew();
        z
    }
    fn renew(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new(self.timeout_ms.to_string()).unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
        }
        self.n = 0;
    }
    pub fn check(&mut self, d: &Dag, cs: &[E]) -> Res {
        self.n += 1;
        if self.n > 200 {
            self.renew();
        }
        let before = Z3_ERRORS.load(std::sync::atomic::Ordering::SeqCst);
        unsafe {
            let c = self.ctx;
            let mut t = Tr { c, d, memo: Default::default() };
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let mut vm: Mask = 0;
            for &e in cs {
                let a = t.b(e);
                Z3_solver_assert(c, s, a);
                vm |= d.vars[e as usize];
            }
            let r = Z3_solver_check(c, s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                let srt = Z3_mk_bv_sort(c, 8);
                for v in 0..MAXVARS {
                    if vm >> v & 1 == 1 {
                        let x = Z3_mk_const(c, Z3_mk_int_symbol(c, v as c_int), srt);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, x, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut u) {
                            out.push((v, u as u8));
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(out)
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(c, s);
            if Z3_ERRORS.load(std::sync::atomic::Ordering::SeqCst) != before {
                return Res::Unknown;
            }
            res
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.ctx) }
    }
}

struct Tr<'a> {
    c: P,
    d: &'a Dag,
    memo: FxMap<E, P>,
}
impl<'a> Tr<'a> {
    unsafe fn num(&self, k: u128, w: u8) -> P {
        let s = Z3_mk_bv_sort(self.c, w as c_uint);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, k as u64, s)
        } else {
            let t = CString::new(k.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    /// Boolean term of a width-1 expression
    unsafe fn b(&mut self, e: E) -> P {
        let c = self.c;
        let n = self.d.n[e as usize];
        debug_assert_eq!(n.w, 1);
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let r = match n.op {
            Op::Const => {
                if n.k == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Not => {
                let a = self.b(n.a);
                Z3_mk_not(c, a)
            }
            Op::And | Op::Mul => {
                let v = [self.b(n.a), self.b(n.b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            Op::Or => {
                let v = [self.b(n.a), self.b(n.b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            Op::Xor | Op::Add | Op::Sub => {
                let (x, y) = (self.b(n.a), self.b(n.b));
                Z3_mk_xor(c, x, y)
            }
            Op::Ite => {
                let (x, y, z) = (self.b(n.a), self.b(n.b), self.b(n.c));
                Z3_mk_ite(c, x, y, z)
            }
            Op::Eq if self.d.w(n.a) == 1 => {
                let (x, y) = (self.b(n.a), self.b(n.b));
                Z3_mk_eq(c, x, y)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (x, y) = (self.v(n.a), self.v(n.b));
                match n.op {
                    Op::Eq => Z3_mk_eq(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y),
                    Op::Ule => Z3_mk_bvule(c, x, y),
                    Op::Slt => Z3_mk_bvslt(c, x, y),
                    _ => Z3_mk_bvsle(c, x, y),
                }
            }
            _ => {
                let x = self.v0(e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, x, one)
            }
        };
        self.memo.insert(e, r);
        r
    }
    /// bit-vector term
    unsafe fn v(&mut self, e: E) -> P {
        let n = self.d.n[e as usize];
        if n.w == 1 {
            let x = self.b(e);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            return Z3_mk_ite(self.c, x, o, z);
        }
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let r = self.v0(e);
        self.memo.insert(e, r);
        r
    }
    unsafe fn v0(&mut self, e: E) -> P {
        let c = self.c;
        let n = self.d.n[e as usize];
        match n.op {
            Op::Const => self.num(n.k, n.w),
            Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 8)),
            Op::Not => {
                let a = self.v(n.a);
                Z3_mk_bvnot(c, a)
            }
            Op::ZExt => {
                let a = self.v(n.a);
                Z3_mk_zero_ext(c, (n.w - self.d.w(n.a)) as c_uint, a)
            }
            Op::SExt => {
                let a = self.v(n.a);
                Z3_mk_sign_ext(c, (n.w - self.d.w(n.a)) as c_uint, a)
            }
            Op::Extract => {
                let a = self.v(n.a);
                Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
            }
            Op::Concat => {
                let (x, y) = (self.v(n.a), self.v(n.b));
                Z3_mk_concat(c, x, y)
            }
            Op::Ite => {
                let (x, y, z) = (self.b(n.a), self.v(n.b), self.v(n.c));
                Z3_mk_ite(c, x, y, z)
            }
            Op::Tab => {
                // runs of equal values become range tests on the index
                let idx = self.v(n.a);
                let t = &self.d.tables[n.k as usize];
                let mut runs: Vec<(usize, u64)> = vec![];
                for i in 0..256 {
                    if i + 1 == 256 || t[i + 1] != t[i] {
                        runs.push((i, t[i]));
                    }
                }
                let (_, last) = runs.pop().unwrap();
                let mk = |s: &Self, x: u64| unsafe { s.num(x as u128, n.w) };
                let mut r = mk(self, last);
                for (hi, val) in runs.into_iter().rev() {
                    let k = self.num(hi as u128, 8);
                    let cnd = Z3_mk_bvule(c, idx, k);
                    r = Z3_mk_ite(c, cnd, mk(self, val), r);
                }
                r
            }
            op => {
                let (x, y) = (self.v(n.a), self.v(n.b));
                match op {
                    Op::Add => Z3_mk_bvadd(c, x, y),
                    Op::Sub => Z3_mk_bvsub(c, x, y),
                    Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y),
                    Op::Or => Z3_mk_bvor(c, x, y),
                    Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y),
                    Op::LShr => Z3_mk_bvlshr(c, x, y),
                    Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y),
                    Op::URem => Z3_mk_bvurem(c, x, y),
                    Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Op::SRem => Z3_mk_bvsrem(c, x, y),
                    _ => unreachable!("{:?}", op),
                }
            }
        }
    }
}
