//! The executable form of the LLVM module.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opn {
    R(u32),
    K(u32),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    /// parallel copies for phis: (dst slot, source)
    pub phis: Box<[(u32, Opn)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opn),
    Asm,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, dst: u32, a: Opn, b: Opn },
    ICmp { p: u8, w: u8, dst: u32, a: Opn, b: Opn },
    Mov { dst: u32, a: Opn },
    Trunc { w: u8, dst: u32, a: Opn },
    ZExt { from: u8, w: u8, dst: u32, a: Opn },
    SExt { from: u8, w: u8, dst: u32, a: Opn },
    BitCast { sn: u32, sw: u8, dn: u32, dw: u8, dst: u32, a: Box<[Opn]> },
    Select { w: u8, dst: u32, c: Opn, a: Opn, b: Opn },
    Alloca { dst: u32, size: u64, align: u64, cnt: Option<Opn> },
    Load { w: u8, dst: u32, p: Opn, off: u32 },
    Store { w: u8, v: Opn, p: Opn, off: u32 },
    Gep { dst: u32, base: Opn, off: i64, idx: Box<[(Opn, u8, i64)]> },
    Br(Edge),
    CondBr { c: Opn, t: Edge, f: Edge },
    Switch { w: u8, v: Opn, cases: Box<[(u128, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret(Box<[Opn]>),
    Call { callee: Callee, args: Box<[Opn]>, dst: u32, inv: Option<Box<(Edge, u32)>> }, // normal edge, unwind edge index
    Intr { id: Intr, w: u8, n: u32, dst: u32, args: Box<[Opn]> },
    LandingPad { dst: u32 },
    Resume { a: Opn },
    Unreachable,
    Nop,
    Rmw { op: u8, w: u8, dst: u32, p: Opn, v: Opn },
    CmpXchg { w: u8, dst: u32, p: Opn, c: Opn, n: Opn },
    ExtractEl { n: u32, w: u8, dst: u32, v: Box<[Opn]>, i: Opn },
    InsertEl { n: u32, dst: u32, v: Box<[Opn]>, x: Opn, i: Opn },
    Unsupported(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Memcpy,
    Memset,
    Ctlz,
    Cttz,
    Ctpop,
    UMax,
    UMin,
    SMax,
    SMin,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Abs,
    Bswap,
    BitReverse,
    UCmp,
    SCmp,
    Trap,
    Tls,
    IsConstant,
    Expect,
    Nop,
    VecReduceOr,
    VecReduceAnd,
    VecReduceAdd,
    VecReduceXor,
    VecReduceUMax,
    VecReduceUMin,
    PtrMask,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>, // slots of each flattened parameter leaf
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub unwind_edges: Vec<Edge>,
    pub decl: bool,
    pub builtin: Option<u16>,
    /// number of return leaves
    pub nret: u32,
    pub retw: Vec<u8>,
    pub paramw: Vec<u8>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub is_const: bool,
}

pub struct Prog {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub consts: Vec<(u64, u64)>,
    pub globals: Vec<Global>, // sorted by address
    pub image: Vec<u8>,       // initial bytes of [GBASE, GBASE+len)
    pub msgs: Vec<String>,
    /// [start,end) of the non-constant part
    pub mutable: (u64, u64),
}
pub const CODE_BASE: u64 = 0x1000;
pub const GBASE: u64 = 0x10_0000;
