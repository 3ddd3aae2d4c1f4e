//! Reads a bitcode module through the LLVM C API of the toolchain's own libLLVM and lowers it to `prog`.
#![allow(non_snake_case)]
use crate::prog::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(c: P, buf: P, out: *mut P) -> c_int;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMABISizeOfType(td: P, t: P) -> c_ulonglong;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> c_ulonglong;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(g: P) -> P;
    fn LLVMAliasGetAliasee(g: P) -> P;
    fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> c_int;
    fn LLVMIsGlobalConstant(v: P) -> c_int;
    fn LLVMGetLinkage(v: P) -> c_int;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGetInitializer(v: P) -> P;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> c_int;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetReturnType(t: P) -> P;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> c_int;
    fn LLVMGetInstructionParent(i: P) -> P;
    fn LLVMGetNumOperands(v: P) -> c_int;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMGetICmpPredicate(v: P) -> c_int;
    fn LLVMGetNumSuccessors(v: P) -> c_uint;
    fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    fn LLVMGetCondition(v: P) -> P;
    fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    fn LLVMCountIncoming(v: P) -> c_uint;
    fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    fn LLVMGetNumArgOperands(v: P) -> c_uint;
    fn LLVMGetCalledValue(v: P) -> P;
    fn LLVMGetNormalDest(v: P) -> P;
    fn LLVMGetUnwindDest(v: P) -> P;
    fn LLVMGetNumIndices(v: P) -> c_uint;
    fn LLVMGetIndices(v: P) -> *const c_uint;
    fn LLVMGetGEPSourceElementType(v: P) -> P;
    fn LLVMGetAllocatedType(v: P) -> P;
    fn LLVMGetAtomicRMWBinOp(v: P) -> c_int;
    fn LLVMGetNumMaskElements(v: P) -> c_uint;
    fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    fn LLVMGetConstOpcode(v: P) -> c_int;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(m: *mut c_char);
    fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    fn LLVMGetElementAsConstant(v: P, i: c_uint) -> P;
    fn LLVMGetRawDataValues(v: P, len: *mut usize) -> *const c_char;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMIsAConstantInt(v: P) -> P;
    fn LLVMIsAConstantPointerNull(v: P) -> P;
    fn LLVMIsAUndefValue(v: P) -> P;
    fn LLVMIsAPoisonValue(v: P) -> P;
    fn LLVMIsAConstantAggregateZero(v: P) -> P;
    fn LLVMIsAConstantDataSequential(v: P) -> P;
    fn LLVMIsAConstantStruct(v: P) -> P;
    fn LLVMIsAConstantArray(v: P) -> P;
    fn LLVMIsAConstantVector(v: P) -> P;
    fn LLVMIsAConstantExpr(v: P) -> P;
    fn LLVMIsAConstantFP(v: P) -> P;
    fn LLVMIsAGlobalVariable(v: P) -> P;
    fn LLVMIsAGlobalAlias(v: P) -> P;
    fn LLVMIsAFunction(v: P) -> P;
    fn LLVMIsAInlineAsm(v: P) -> P;
    fn LLVMIsAInstruction(v: P) -> P;
    fn LLVMIsAArgument(v: P) -> P;
}

fn name(v: P) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
fn print(v: P) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}

struct Ld {
    td: P,
    leaves: HashMap<usize, std::rc::Rc<Vec<(u64, u8)>>>,
    gaddr: HashMap<usize, u64>,
    fidx: HashMap<usize, u32>,
    p: Prog,
    kmap: HashMap<(u64, u64), u32>,
}

type R<T> = Result<T, String>;

impl Ld {
    fn leaves(&mut self, t: P) -> std::rc::Rc<Vec<(u64, u8)>> {
        if let Some(l) = self.leaves.get(&(t as usize)) {
            return l.clone();
        }
        let mut v = vec![];
        self.flat(t, 0, &mut v);
        let r = std::rc::Rc::new(v);
        self.leaves.insert(t as usize, r.clone());
        r
    }
    fn flat(&mut self, t: P, off: u64, out: &mut Vec<(u64, u8)>) {
        unsafe {
            match LLVMGetTypeKind(t) {
                8 => {
                    let w = LLVMGetIntTypeWidth(t);
                    out.push((off, w.min(255) as u8))
                }
                12 => out.push((off, 64)),
                10 => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let o = LLVMOffsetOfElement(self.td, t, i);
                        self.flat(LLVMStructGetTypeAtIndex(t, i), off + o, out);
                    }
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, e);
                    for i in 0..LLVMGetArrayLength2(t) {
                        self.flat(e, off + i * s, out);
                    }
                }
                13 => {
                    let e = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, e);
                    for i in 0..LLVMGetVectorSize(t) {
                        self.flat(e, off + i as u64 * s, out);
                    }
                }
                2 => out.push((off, 32)),
                3 => out.push((off, 64)),
                0 => {}
                _ => out.push((off, 255)),
            }
        }
    }
    fn size(&self, t: P) -> u64 {
        unsafe { LLVMABISizeOfType(self.td, t) }
    }
    fn k(&mut self, lo: u64, hi: u64) -> Opn {
        if let Some(&i) = self.kmap.get(&(lo, hi)) {
            return Opn::K(i);
        }
        let i = self.p.consts.len() as u32;
        self.p.consts.push((lo, hi));
        self.kmap.insert((lo, hi), i);
        Opn::K(i)
    }
    /// Flattened constant value.
    fn cst(&mut self, v: P, out: &mut Vec<(u64, u64)>) -> R<()> {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantInt(v).is_null() {
                let w = LLVMGetIntTypeWidth(t);
                if w <= 64 {
                    out.push((LLVMConstIntGetZExtValue(v), 0));
                } else {
                    let s = print(v);
                    let n: i128 = s.split(' ').last().unwrap().parse().map_err(|e| format!("i128 const {s}: {e}"))?;
                    out.push((n as u64, ((n as u128) >> 64) as u64));
                }
                return Ok(());
            }
            if !LLVMIsAConstantPointerNull(v).is_null()
                || !LLVMIsAUndefValue(v).is_null()
                || !LLVMIsAPoisonValue(v).is_null()
                || !LLVMIsAConstantAggregateZero(v).is_null()
            {
                for _ in 0..self.leaves(t).len() {
                    out.push((0, 0));
                }
                return Ok(());
            }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let n = if LLVMGetTypeKind(t) == 13 { LLVMGetVectorSize(t) as u64 } else { LLVMGetArrayLength2(t) };
                for i in 0..n {
                    let e = LLVMGetElementAsConstant(v, i as c_uint);
                    self.cst(e, out)?;
                }
                return Ok(());
            }
            if !LLVMIsAConstantStruct(v).is_null()
                || !LLVMIsAConstantArray(v).is_null()
                || !LLVMIsAConstantVector(v).is_null()
            {
                for i in 0..LLVMGetNumOperands(v) {
                    self.cst(LLVMGetOperand(v, i as c_uint), out)?;
                }
                return Ok(());
            }
            if !LLVMIsAConstantFP(v).is_null() {
                out.push((0xdead, 0)); // floating point is never executed (arithmetic on it is Unsupported)
                return Ok(());
            }
            out.push((self.addr(v)?, 0));
            Ok(())
        }
    }
    /// Constant scalar (pointer or integer) expressions.
    fn addr(&mut self, v: P) -> R<u64> {
        unsafe {
            if !LLVMIsAGlobalAlias(v).is_null() {
                return self.addr(LLVMAliasGetAliasee(v));
            }
            if let Some(&a) = self.gaddr.get(&(v as usize)) {
                return Ok(a);
            }
            if !LLVMIsAConstantInt(v).is_null() {
                return Ok(LLVMConstIntGetZExtValue(v));
            }
            if !LLVMIsAConstantPointerNull(v).is_null() || !LLVMIsAUndefValue(v).is_null() {
                return Ok(0);
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let a = |s: &mut Self, i: u32| s.addr(LLVMGetOperand(v, i));
                return match op {
                    39 | 40 | 41 => a(self, 0),
                    30 => {
                        let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
                        Ok(a(self, 0)? & if w >= 64 { !0 } else { (1 << w) - 1 })
                    }
                    8 => Ok(a(self, 0)?.wrapping_add(a(self, 1)?)),
                    10 => Ok(a(self, 0)?.wrapping_sub(a(self, 1)?)),
                    25 => Ok(a(self, 0)? ^ a(self, 1)?),
                    29 => {
                        let base = a(self, 0)?;
                        let (off, idx) = self.gep(v, None)?;
                        if !idx.is_empty() {
                            return Err("const gep with variable index".into());
                        }
                        Ok(base.wrapping_add(off as u64))
                    }
                    _ => Err(format!("constexpr {}", print(v))),
                };
            }
            Err(format!("constant {}", print(v)))
        }
    }
    fn gep(&mut self, v: P, f: Option<&mut Fn_>) -> R<(i64, Vec<(Opn, u8, i64)>)> {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v);
            let mut off = 0i64;
            let mut out = vec![];
            let mut f = f;
            for i in 1..n {
                let x = LLVMGetOperand(v, i as c_uint);
                let is_c = !LLVMIsAConstantInt(x).is_null();
                let iw = LLVMGetIntTypeWidth(LLVMTypeOf(x)) as u8;
                let cv = if is_c {
                    let z = LLVMConstIntGetZExtValue(x);
                    let s = 64 - iw as u32;
                    ((z << s) as i64) >> s
                } else {
                    0
                };
                let stride;
                if i == 1 {
                    stride = self.size(t) as i64;
                } else {
                    match LLVMGetTypeKind(t) {
                        10 => {
                            off += LLVMOffsetOfElement(self.td, t, cv as c_uint) as i64;
                            t = LLVMStructGetTypeAtIndex(t, cv as c_uint);
                            continue;
                        }
                        11 | 13 => {
                            t = LLVMGetElementType(t);
                            stride = self.size(t) as i64;
                        }
                        k => return Err(format!("gep into type kind {k}")),
                    }
                }
                if is_c {
                    off = off.wrapping_add(cv.wrapping_mul(stride));
                } else {
                    let f = f.as_mut().ok_or("variable index in constant gep")?;
                    let o = self.opn(x, f)?;
                    out.push((o[0], iw, stride));
                }
            }
            Ok((off, out))
        }
    }
    fn opn(&mut self, v: P, f: &mut Fn_) -> R<Vec<Opn>> {
        unsafe {
            if !LLVMIsAInstruction(v).is_null() || !LLVMIsAArgument(v).is_null() {
                let t = LLVMTypeOf(v);
                let n = self.leaves(t).len() as u32;
                let s = self.slot(v, f);
                return Ok((s..s + n).map(Opn::R).collect());
            }
            let mut o = vec![];
            self.cst(v, &mut o)?;
            Ok(o.into_iter().map(|(l, h)| self.k(l, h)).collect())
        }
    }
    fn slot(&mut self, v: P, f: &mut Fn_) -> u32 {
        if let Some(&s) = f.slots.get(&(v as usize)) {
            return s;
        }
        let t = unsafe { LLVMTypeOf(v) };
        let n = self.leaves(t).len() as u32;
        let s = f.nregs;
        f.nregs += n;
        f.slots.insert(v as usize, s);
        s
    }
    fn width(&mut self, v: P) -> u8 {
        let t = unsafe { LLVMTypeOf(v) };
        let l = self.leaves(t);
        l.first().map(|x| x.1).unwrap_or(0)
    }
    fn init(&mut self, v: P, off: usize) -> R<()> {
        // writes the initializer at image[off..]
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAUndefValue(v).is_null() {
                return Ok(());
            }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let mut n = 0usize;
                let p = LLVMGetRawDataValues(v, &mut n);
                let s = std::slice::from_raw_parts(p as *const u8, n);
                self.p.image[off..off + n].copy_from_slice(s);
                return Ok(());
            }
            if !LLVMIsAConstantStruct(v).is_null() {
                for i in 0..LLVMGetNumOperands(v) as c_uint {
                    let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                    self.init(LLVMGetOperand(v, i), off + o)?;
                }
                return Ok(());
            }
            if !LLVMIsAConstantArray(v).is_null() || !LLVMIsAConstantVector(v).is_null() {
                let es = self.size(LLVMGetElementType(t)) as usize;
                for i in 0..LLVMGetNumOperands(v) as c_uint {
                    self.init(LLVMGetOperand(v, i), off + i as usize * es)?;
                }
                return Ok(());
            }
            let mut o = vec![];
            self.cst(v, &mut o)?;
            let n = self.size(t) as usize;
            let x = (o[0].0 as u128) | (o[0].1 as u128) << 64;
            self.p.image[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            Ok(())
        }
    }
}

struct Fn_ {
    slots: HashMap<usize, u32>,
    nregs: u32,
}

pub fn load(path: &str) -> R<Prog> {
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let cp = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {path}"));
        }
        let mut m: P = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
            return Err(format!("cannot parse {path}"));
        }
        let td = LLVMGetModuleDataLayout(m);
        let mut l = Ld {
            td,
            leaves: HashMap::new(),
            gaddr: HashMap::new(),
            fidx: HashMap::new(),
            kmap: HashMap::new(),
            p: Prog {
                funcs: vec![],
                fmap: HashMap::new(),
                consts: vec![],
                globals: vec![],
                image: vec![],
                msgs: vec![],
                mutable: (0, 0),
            },
        };
        // functions get code addresses
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let i = fs.len() as u32;
            l.gaddr.insert(f as usize, CODE_BASE + 16 * i as u64);
            l.fidx.insert(f as usize, i);
            l.p.fmap.insert(name(f), i);
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        // extern_weak functions are absent
        for &f in &fs {
            if LLVMIsDeclaration(f) != 0 && LLVMGetLinkage(f) == 12 {
                l.gaddr.insert(f as usize, 0);
            }
        }
        if CODE_BASE + 16 * fs.len() as u64 >= GBASE {
            return Err("too many functions".into());
        }
        // globals: mutable ones first
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            gs.push(g);
            g = LLVMGetNextGlobal(g);
        }
        let mut a = GBASE;
        for pass in 0..2 {
            for &g in &gs {
                let c = LLVMIsGlobalConstant(g) != 0 && LLVMIsDeclaration(g) == 0;
                if c != (pass == 1) {
                    continue;
                }
                if LLVMIsDeclaration(g) != 0 && LLVMGetLinkage(g) == 12 {
                    l.gaddr.insert(g as usize, 0);
                    continue;
                }
                let t = LLVMGlobalGetValueType(g);
                let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(td, t) as u64).max(16);
                a = (a + al - 1) / al * al;
                let s = l.size(t).max(1);
                l.gaddr.insert(g as usize, a);
                l.p.globals.push(Global { name: name(g), addr: a, size: s, is_const: c });
                a += s + 16;
            }
            if pass == 0 {
                a = (a + 4095) / 4096 * 4096;
                l.p.mutable = (GBASE, a);
            }
        }
        l.p.image = vec![0; (a - GBASE) as usize];
        for &g in &gs {
            if LLVMIsDeclaration(g) == 0 {
                let off = l.gaddr[&(g as usize)] - GBASE;
                l.init(LLVMGetInitializer(g), off as usize)?;
            }
        }
        // aliases to functions
        let mut al = LLVMGetFirstGlobalAlias(m);
        while !al.is_null() {
            let x = LLVMAliasGetAliasee(al);
            if !LLVMIsAFunction(x).is_null() {
                let i = l.fidx[&(x as usize)];
                l.fidx.insert(al as usize, i);
                l.p.fmap.insert(name(al), i);
            }
            al = LLVMGetNextGlobalAlias(al);
        }
        for &f in &fs {
            let nf = lower(&mut l, f)?;
            l.p.funcs.push(nf);
        }
        Ok(l.p)
    }
}

unsafe fn lower(l: &mut Ld, f: P) -> R<Func> {
    let fname = name(f);
    let ft = LLVMGlobalGetValueType(f);
    let rt = LLVMGetReturnType(ft);
    let rl = l.leaves(rt);
    let mut fx = Fn_ { slots: HashMap::new(), nregs: 0 };
    let mut params = vec![];
    let mut paramw = vec![];
    for i in 0..LLVMCountParams(f) {
        let a = LLVMGetParam(f, i);
        let n = l.leaves(LLVMTypeOf(a));
        let s = l.slot(a, &mut fx);
        for j in 0..n.len() as u32 {
            params.push(s + j);
            paramw.push(n[j as usize].1);
        }
    }
    let mut func = Func {
        name: fname,
        params,
        paramw,
        nregs: 0,
        code: vec![],
        unwind_edges: vec![],
        decl: LLVMIsDeclaration(f) != 0,
        builtin: None,
        nret: rl.len() as u32,
        retw: rl.iter().map(|x| x.1).collect(),
    };
    if func.decl {
        return Ok(func);
    }
    let mut bpc: HashMap<usize, u32> = HashMap::new();
    // (code index, ...) fixups: edges store block pointer index in `pc` until resolved
    let mut blocks = vec![];
    let mut b = LLVMGetFirstBasicBlock(f);
    while !b.is_null() {
        blocks.push(b);
        b = LLVMGetNextBasicBlock(b);
    }
    let bidx: HashMap<usize, u32> = blocks.iter().enumerate().map(|(i, b)| (*b as usize, i as u32)).collect();
    for &b in &blocks {
        bpc.insert(b as usize, func.code.len() as u32);
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() {
            if let Err(e) = inst(l, &mut fx, &mut func, &bidx, i) {
                let id = l.p.msgs.len() as u32;
                l.p.msgs.push(format!("{}: {} in {}", e, print(i).trim(), func.name));
                func.code.push(Inst::Unsupported(id));
            }
            i = LLVMGetNextInstruction(i);
        }
    }
    let pcs: Vec<u32> = blocks.iter().map(|b| bpc[&(*b as usize)]).collect();
    let fix = |e: &mut Edge| e.pc = pcs[e.pc as usize];
    for i in &mut func.code {
        match i {
            Inst::Br(e) => fix(e),
            Inst::CondBr { t, f, .. } => {
                fix(t);
                fix(f)
            }
            Inst::Switch { edges, .. } => edges.iter_mut().for_each(fix),
            Inst::Call { inv: Some(x), .. } => fix(&mut x.0),
            _ => {}
        }
    }
    func.unwind_edges.iter_mut().for_each(fix);
    func.nregs = fx.nregs;
    Ok(func)
}

unsafe fn edge(l: &mut Ld, fx: &mut Fn_, bidx: &HashMap<usize, u32>, from: P, to: P) -> R<Edge> {
    let mut phis = vec![];
    let mut i = LLVMGetFirstInstruction(to);
    while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
        let d = l.slot(i, fx);
        let n = LLVMCountIncoming(i);
        let mut ok = false;
        for j in 0..n {
            if LLVMGetIncomingBlock(i, j) == from {
                let o = l.opn(LLVMGetIncomingValue(i, j), fx)?;
                for (k, x) in o.into_iter().enumerate() {
                    if x != Opn::R(d + k as u32) {
                        phis.push((d + k as u32, x));
                    }
                }
                ok = true;
                break;
            }
        }
        if !ok {
            return Err("phi without incoming".into());
        }
        i = LLVMGetNextInstruction(i);
    }
    Ok(Edge { pc: bidx[&(to as usize)], phis: phis.into() })
}

fn bit_span(lv: &[(u64, u8)]) -> (u32, u8) {
    (lv.len() as u32, lv.first().map(|x| x.1).unwrap_or(0))
}

unsafe fn inst(l: &mut Ld, fx: &mut Fn_, func: &mut Func, bidx: &HashMap<usize, u32>, i: P) -> R<()> {
    let op = LLVMGetInstructionOpcode(i);
    let o = |k: u32| LLVMGetOperand(i, k);
    let t = LLVMTypeOf(i);
    let bb = LLVMGetInstructionParent(i);
    let nops = LLVMGetNumOperands(i);
    macro_rules! push {
        ($x:expr) => {{
            let x = $x;
            func.code.push(x)
        }};
    }
    match op {
        1 => {
            let v = if nops > 0 { l.opn(o(0), fx)? } else { vec![] };
            push!(Inst::Ret(v.into()));
        }
        // conditional / unconditional branches (both generations of the C API)
        2 | 69 | 70 | 71 if LLVMGetNumSuccessors(i) >= 1 => {
            if LLVMGetNumSuccessors(i) == 1 {
                let e = edge(l, fx, bidx, bb, LLVMGetSuccessor(i, 0))?;
                push!(Inst::Br(e));
            } else {
                let c = l.opn(LLVMGetCondition(i), fx)?[0];
                let t = edge(l, fx, bidx, bb, LLVMGetSuccessor(i, 0))?;
                let f = edge(l, fx, bidx, bb, LLVMGetSuccessor(i, 1))?;
                push!(Inst::CondBr { c, t, f });
            }
        }
        3 => {
            let v = l.opn(o(0), fx)?[0];
            let w = l.width(o(0));
            let n = LLVMGetNumSuccessors(i);
            let mut edges = vec![];
            let mut cases = vec![];
            for k in 0..n {
                edges.push(edge(l, fx, bidx, bb, LLVMGetSuccessor(i, k))?);
                if k > 0 {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    let mut x = vec![];
                    l.cst(cv, &mut x)?;
                    cases.push(((x[0].0 as u128) | (x[0].1 as u128) << 64, k));
                }
            }
            push!(Inst::Switch { w, v, cases: cases.into(), edges: edges.into() });
        }
        5 | 45 => {
            let callee = LLVMGetCalledValue(i);
            let n = LLVMGetNumArgOperands(i);
            let dst = l.slot(i, fx);
            let mut args = vec![];
            let cn = if !LLVMIsAFunction(callee).is_null() { name(callee) } else { String::new() };
            if op == 45 && cn.starts_with("llvm.") {
                return intrinsic(l, fx, func, i, &cn, dst, n);
            }
            for k in 0..n {
                let a = o(k);
                args.extend(l.opn(a, fx)?);
            }
            let c = if !LLVMIsAInlineAsm(callee).is_null() {
                Callee::Asm
            } else if let Some(&fi) = l.fidx.get(&(callee as usize)) {
                Callee::Func(fi)
            } else {
                Callee::Ptr(l.opn(callee, fx)?[0])
            };
            let inv = if op == 5 {
                let ne = edge(l, fx, bidx, bb, LLVMGetNormalDest(i))?;
                let ue = edge(l, fx, bidx, bb, LLVMGetUnwindDest(i))?;
                let id = func.unwind_edges.len() as u32;
                func.unwind_edges.push(ue);
                Some(Box::new((ne, id)))
            } else {
                None
            };
            push!(Inst::Call { callee: c, args: args.into(), dst, inv });
        }
        7 => push!(Inst::Unreachable),
        8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
            use BinOp::*;
            let bop = match op {
                8 => Add,
                10 => Sub,
                12 => Mul,
                14 => UDiv,
                15 => SDiv,
                17 => URem,
                18 => SRem,
                20 => Shl,
                21 => LShr,
                22 => AShr,
                23 => And,
                24 => Or,
                _ => Xor,
            };
            let lv = l.leaves(t);
            let a = l.opn(o(0), fx)?;
            let b = l.opn(o(1), fx)?;
            let d = l.slot(i, fx);
            for k in 0..lv.len() {
                push!(Inst::Bin { op: bop, w: lv[k].1, dst: d + k as u32, a: a[k], b: b[k] });
            }
        }
        26 => {
            let at = LLVMGetAllocatedType(i);
            let size = l.size(at);
            let n = o(0);
            let align = (LLVMGetAlignment(i) as u64).max(LLVMABIAlignmentOfType(l.td, at) as u64);
            let dst = l.slot(i, fx);
            if !LLVMIsAConstantInt(n).is_null() {
                push!(Inst::Alloca { dst, size: size * LLVMConstIntGetZExtValue(n), align, cnt: None });
            } else {
                let c = l.opn(n, fx)?[0];
                push!(Inst::Alloca { dst, size, align, cnt: Some(c) });
            }
        }
        27 => {
            let lv = l.leaves(t);
            let p = l.opn(o(0), fx)?[0];
            let d = l.slot(i, fx);
            if LLVMGetTypeKind(t) == 13 && lv[0].1 % 8 != 0 {
                let (sn, sw) = bit_span(&lv);
                let bits = sn as u64 * sw as u64;
                if bits > 128 || bits % 8 != 0 {
                    return Err("load of sub-byte vector".into());
                }
                let tmp = fx.nregs;
                fx.nregs += 1;
                push!(Inst::Load { w: bits as u8, dst: tmp, p, off: 0 });
                push!(Inst::BitCast { sn: 1, sw: bits as u8, dn: sn, dw: sw, dst: d, a: vec![Opn::R(tmp)].into() });
                return Ok(());
            }
            for k in 0..lv.len() {
                push!(Inst::Load { w: lv[k].1, dst: d + k as u32, p, off: lv[k].0 as u32 });
            }
        }
        28 => {
            let vt = LLVMTypeOf(o(0));
            let lv = l.leaves(vt);
            let v = l.opn(o(0), fx)?;
            let p = l.opn(o(1), fx)?[0];
            if LLVMGetTypeKind(vt) == 13 && lv[0].1 % 8 != 0 {
                let (sn, sw) = bit_span(&lv);
                let bits = sn as u64 * sw as u64;
                if bits > 128 || bits % 8 != 0 {
                    return Err("store of sub-byte vector".into());
                }
                let tmp = fx.nregs;
                fx.nregs += 1;
                push!(Inst::BitCast { sn, sw, dn: 1, dw: bits as u8, dst: tmp, a: v.into() });
                push!(Inst::Store { w: bits as u8, v: Opn::R(tmp), p, off: 0 });
                return Ok(());
            }
            for k in 0..lv.len() {
                push!(Inst::Store { w: lv[k].1, v: v[k], p, off: lv[k].0 as u32 });
            }
        }
        29 => {
            let base = l.opn(o(0), fx)?;
            if base.len() != 1 {
                return Err("vector gep".into());
            }
            let (off, idx) = l.gep(i, Some(fx))?;
            let dst = l.slot(i, fx);
            push!(Inst::Gep { dst, base: base[0], off, idx: idx.into() });
        }
        30 | 31 | 32 | 39 | 40 | 60 => {
            let sl = l.leaves(LLVMTypeOf(o(0)));
            let dl = l.leaves(t);
            let a = l.opn(o(0), fx)?;
            let d = l.slot(i, fx);
            for k in 0..dl.len() {
                let (fw, tw) = (sl[k].1, dl[k].1);
                let dst = d + k as u32;
                push!(if op == 32 {
                    Inst::SExt { from: fw, w: tw, dst, a: a[k] }
                } else if tw < fw {
                    Inst::Trunc { w: tw, dst, a: a[k] }
                } else if tw > fw {
                    Inst::ZExt { from: fw, w: tw, dst, a: a[k] }
                } else {
                    Inst::Mov { dst, a: a[k] }
                });
            }
        }
        41 => {
            let sl = l.leaves(LLVMTypeOf(o(0)));
            let dl = l.leaves(t);
            let a = l.opn(o(0), fx)?;
            let dst = l.slot(i, fx);
            let (sn, sw) = bit_span(&sl);
            let (dn, dw) = bit_span(&dl);
            if sn as u64 * sw as u64 > 128 {
                return Err("wide bitcast".into());
            }
            push!(Inst::BitCast { sn, sw, dn, dw, dst, a: a.into() });
        }
        42 => {
            let p = LLVMGetICmpPredicate(i) as u8;
            let lv = l.leaves(LLVMTypeOf(o(0)));
            let a = l.opn(o(0), fx)?;
            let b = l.opn(o(1), fx)?;
            let d = l.slot(i, fx);
            for k in 0..lv.len() {
                push!(Inst::ICmp { p, w: lv[k].1, dst: d + k as u32, a: a[k], b: b[k] });
            }
        }
        44 => {
            // phi: handled on edges; make sure it has a slot
            l.slot(i, fx);
        }
        46 => {
            let lv = l.leaves(t);
            let c = l.opn(o(0), fx)?;
            let a = l.opn(o(1), fx)?;
            let b = l.opn(o(2), fx)?;
            let d = l.slot(i, fx);
            for k in 0..lv.len() {
                let cc = if c.len() == 1 { c[0] } else { c[k] };
                push!(Inst::Select { w: lv[k].1, dst: d + k as u32, c: cc, a: a[k], b: b[k] });
            }
        }
        50 => {
            let v = l.opn(o(0), fx)?;
            let ix = l.opn(o(1), fx)?[0];
            let d = l.slot(i, fx);
            if let Opn::K(k) = ix {
                let k = l.p.consts[k as usize].0 as usize;
                push!(Inst::Mov { dst: d, a: v[k] });
            } else {
                let w = l.leaves(t)[0].1;
                push!(Inst::ExtractEl { n: v.len() as u32, w, dst: d, v: v.into(), i: ix });
            }
        }
        51 => {
            let v = l.opn(o(0), fx)?;
            let x = l.opn(o(1), fx)?[0];
            let ix = l.opn(o(2), fx)?[0];
            let d = l.slot(i, fx);
            if let Opn::K(k) = ix {
                let k = l.p.consts[k as usize].0 as usize;
                for (j, a) in v.iter().enumerate() {
                    push!(Inst::Mov { dst: d + j as u32, a: if j == k { x } else { *a } });
                }
            } else {
                push!(Inst::InsertEl { n: v.len() as u32, dst: d, v: v.into(), x, i: ix });
            }
        }
        52 => {
            let mut v = l.opn(o(0), fx)?;
            v.extend(l.opn(o(1), fx)?);
            let n = LLVMGetNumMaskElements(i);
            let d = l.slot(i, fx);
            let z = l.k(0, 0);
            for j in 0..n {
                let m = LLVMGetMaskValue(i, j);
                let a = if m < 0 || m as usize >= v.len() { z } else { v[m as usize] };
                push!(Inst::Mov { dst: d + j, a });
            }
        }
        53 | 54 => {
            let agg = o(0);
            let mut ct = LLVMTypeOf(agg);
            let n = LLVMGetNumIndices(i);
            let ix = LLVMGetIndices(i);
            let mut s = 0usize;
            for k in 0..n {
                let x = *ix.add(k as usize);
                match LLVMGetTypeKind(ct) {
                    10 => {
                        for j in 0..x {
                            s += l.leaves(LLVMStructGetTypeAtIndex(ct, j)).len();
                        }
                        ct = LLVMStructGetTypeAtIndex(ct, x);
                    }
                    11 => {
                        ct = LLVMGetElementType(ct);
                        s += x as usize * l.leaves(ct).len();
                    }
                    _ => return Err("extractvalue".into()),
                }
            }
            let m = l.leaves(ct).len();
            let a = l.opn(agg, fx)?;
            let d = l.slot(i, fx);
            if op == 53 {
                for k in 0..m {
                    push!(Inst::Mov { dst: d + k as u32, a: a[s + k] });
                }
            } else {
                let x = l.opn(o(1), fx)?;
                for k in 0..a.len() {
                    let v = if k >= s && k < s + m { x[k - s] } else { a[k] };
                    push!(Inst::Mov { dst: d + k as u32, a: v });
                }
            }
        }
        68 => {
            let a = l.opn(o(0), fx)?;
            let d = l.slot(i, fx);
            for k in 0..a.len() {
                push!(Inst::Mov { dst: d + k as u32, a: a[k] });
            }
        }
        55 => {}
        56 => {
            let p = l.opn(o(0), fx)?[0];
            let c = l.opn(o(1), fx)?[0];
            let n = l.opn(o(2), fx)?[0];
            let w = l.width(o(1));
            let dst = l.slot(i, fx);
            push!(Inst::CmpXchg { w, dst, p, c, n });
        }
        57 => {
            let p = l.opn(o(0), fx)?[0];
            let v = l.opn(o(1), fx)?[0];
            let w = l.width(o(1));
            let dst = l.slot(i, fx);
            push!(Inst::Rmw { op: LLVMGetAtomicRMWBinOp(i) as u8, w, dst, p, v });
        }
        58 => {
            let a = l.opn(o(0), fx)?[0];
            push!(Inst::Resume { a });
        }
        59 => {
            let dst = l.slot(i, fx);
            push!(Inst::LandingPad { dst });
        }
        _ => {
            l.slot(i, fx);
            return Err(format!("opcode {op}"));
        }
    }
    Ok(())
}

unsafe fn intrinsic(l: &mut Ld, fx: &mut Fn_, func: &mut Func, i: P, cn: &str, dst: u32, n: c_uint) -> R<()> {
    let o = |k: u32| LLVMGetOperand(i, k);
    let is = |p: &str| cn == p || (cn.starts_with(p) && cn.as_bytes().get(p.len()) == Some(&b'.'));
    for p in [
        "llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl",
        "llvm.dbg.value", "llvm.dbg.declare", "llvm.donothing", "llvm.x86.sse2.pause", "llvm.sideeffect",
        "llvm.invariant.start", "llvm.prefetch", "llvm.fake.use", "llvm.eh.typeid.for",
    ] {
        if is(p) {
            return Ok(());
        }
    }
    let t = LLVMTypeOf(i);
    let rl = l.leaves(t);
    let mut args = vec![];
    let intr = [
        ("llvm.memcpy", Intr::Memcpy),
        ("llvm.memcpy.inline", Intr::Memcpy),
        ("llvm.memmove", Intr::Memcpy),
        ("llvm.memset", Intr::Memset),
        ("llvm.ctlz", Intr::Ctlz),
        ("llvm.cttz", Intr::Cttz),
        ("llvm.ctpop", Intr::Ctpop),
        ("llvm.umax", Intr::UMax),
        ("llvm.umin", Intr::UMin),
        ("llvm.smax", Intr::SMax),
        ("llvm.smin", Intr::SMin),
        ("llvm.fshl", Intr::Fshl),
        ("llvm.fshr", Intr::Fshr),
        ("llvm.uadd.with.overflow", Intr::UAddO),
        ("llvm.usub.with.overflow", Intr::USubO),
        ("llvm.umul.with.overflow", Intr::UMulO),
        ("llvm.sadd.with.overflow", Intr::SAddO),
        ("llvm.ssub.with.overflow", Intr::SSubO),
        ("llvm.smul.with.overflow", Intr::SMulO),
        ("llvm.uadd.sat", Intr::UAddSat),
        ("llvm.usub.sat", Intr::USubSat),
        ("llvm.sadd.sat", Intr::SAddSat),
        ("llvm.ssub.sat", Intr::SSubSat),
        ("llvm.abs", Intr::Abs),
        ("llvm.bswap", Intr::Bswap),
        ("llvm.bitreverse", Intr::BitReverse),
        ("llvm.ucmp", Intr::UCmp),
        ("llvm.scmp", Intr::SCmp),
        ("llvm.trap", Intr::Trap),
        ("llvm.threadlocal.address", Intr::Tls),
        ("llvm.is.constant", Intr::IsConstant),
        ("llvm.expect", Intr::Expect),
        ("llvm.vector.reduce.or", Intr::VecReduceOr),
        ("llvm.vector.reduce.and", Intr::VecReduceAnd),
        ("llvm.vector.reduce.add", Intr::VecReduceAdd),
        ("llvm.vector.reduce.xor", Intr::VecReduceXor),
        ("llvm.vector.reduce.umax", Intr::VecReduceUMax),
        ("llvm.vector.reduce.umin", Intr::VecReduceUMin),
        ("llvm.ptrmask", Intr::PtrMask),
    ]
    .iter()
    .find(|(p, _)| is(p))
    .map(|x| x.1)
    .ok_or_else(|| format!("intrinsic {cn}"))?;
    for k in 0..n {
        args.push(l.opn(o(k), fx)?);
    }
    match intr {
        Intr::Memcpy | Intr::Memset | Intr::Trap | Intr::Tls | Intr::IsConstant | Intr::Expect | Intr::PtrMask => {
            let a: Vec<Opn> = args.iter().map(|x| x[0]).collect();
            func.code.push(Inst::Intr { id: intr, w: rl.first().map(|x| x.1).unwrap_or(0), n: 1, dst, args: a.into() });
        }
        Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd | Intr::VecReduceXor | Intr::VecReduceUMax | Intr::VecReduceUMin => {
            let a = args[0].clone();
            func.code.push(Inst::Intr { id: intr, w: rl[0].1, n: a.len() as u32, dst, args: a.into() });
        }
        Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
            if rl.len() != 2 {
                return Err("vector overflow intrinsic".into());
            }
            func.code.push(Inst::Intr { id: intr, w: rl[0].1, n: 1, dst, args: vec![args[0][0], args[1][0]].into() });
        }
        _ => {
            // per lane; scalar flags (ctlz/cttz/abs) are ignored
            let w = l.width(o(0));
            for k in 0..rl.len() {
                let a: Vec<Opn> = args.iter().map(|x| if x.len() == rl.len() { x[k] } else { x[0] }).collect();
                // result width differs from operand width only for ucmp/scmp: pass result width in n
                func.code.push(Inst::Intr { id: intr, w, n: rl[k].1 as u32, dst: dst + k as u32, args: a.into() });
            }
        }
    }
    Ok(())
}
