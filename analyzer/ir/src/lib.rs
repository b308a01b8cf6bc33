//! Monomorphic MIR as exported by the driver and consumed by the engine.
use serde::{Deserialize, Serialize};
pub type TyId = u32;
pub type FnId = u32;
pub type SpanId = u32;

#[derive(Serialize, Deserialize, Default, Debug)]
pub struct Program {
    pub krate: String,
    pub tys: Vec<Ty>,
    pub fns: Vec<Func>,
    pub roots: Vec<FnId>,
    pub impls: Vec<ImplFact>,
    pub files: Vec<String>,
    pub spans: Vec<(u32, u32)>, // file, line
    pub sigs: Vec<SigFact>,
    #[serde(default)] pub probes: Vec<ProbeFact>,
    #[serde(default)] pub fields: Vec<FieldFact>,
    pub unsafe_spans: Vec<(String, String)>,
}
/// `impl Trait for Ty` in a workspace crate
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ImplFact { pub krate: String, pub trait_: String, pub self_ty: String, pub self_adt: String, pub text: String }
/// signature of a function of a workspace crate (not monomorphised)
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SigFact { pub krate: String, pub path: String, pub public: bool,
    /// may code outside the workspace name it (free functions by path, methods by their type or trait)?
    #[serde(default)] pub reachable: bool,
    pub inputs: Vec<String>, pub output: String,
    /// types met in each input, and in the output
    pub ins: Vec<Vec<Held>>, pub out: Vec<Held>,
    /// functions called, and closures made, in the (generic) body
    pub calls: Vec<String> }
/// an abstract data type met in a type, with the types it is applied to
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Held { pub path: String, pub args: Vec<String>, pub by_ref: bool }
/// a field of a data type of a workspace crate that code outside its crate may name
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct FieldFact { pub adt: String, pub name: String, pub held: Vec<Held>, pub public: bool }
/// does a type implement a trait?
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ProbeFact { pub probe: String, pub ty: String, pub trait_: String, pub holds: bool }

#[derive(Serialize, Deserialize, Debug)]
pub struct Ty { pub name: String, pub kind: TyKind, pub size: Option<u64>, pub needs_drop: bool }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyKind {
    Bool, Char, Int { bits: u32, signed: bool }, Float(u32), Never, Str,
    Array(TyId, u64), Slice(TyId), Tuple(Vec<TyId>),
    Ref(TyId, bool), Ptr(TyId, bool),
    Adt { path: String, krate: String, kind: AdtKind, is_box: bool, variants: Vec<Variant>, args: Vec<TyId> },
    FnDef(FnId), FnPtr,
    Closure { def: String, body: FnId, upvars: Vec<TyId> },
    Dyn(String),
    Other,
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum AdtKind { Struct, Enum, Union }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant { pub name: String, pub discr: u128, pub fields: Vec<(String, TyId)> }

#[derive(Serialize, Deserialize, Debug)]
pub struct Func {
    /// fully instantiated name
    pub name: String,
    /// definition path, without instantiation
    pub path: String,
    pub krate: String,
    /// types among the generic arguments
    pub targs: Vec<TyId>,
    pub args: Vec<TyId>,
    pub ret: TyId,
    pub kind: FnKind,
    pub body: Option<Body>,
    pub is_closure: bool,
    pub span: SpanId,
    /// for a collection filled from an iterator: the functions that make and advance it
    pub iter: Option<(FnId, FnId)>,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Eq, Clone)]
pub enum FnKind { Item, Intrinsic, Virtual(u32), Shim, Unresolved }
#[derive(Serialize, Deserialize, Debug)]
pub struct Body {
    pub locals: Vec<TyId>,
    pub arg_count: usize,
    pub spread: Option<usize>,
    pub blocks: Vec<Block>,
    /// user variable names (only whole locals)
    pub vars: Vec<(String, usize)>,
}
#[derive(Serialize, Deserialize, Debug)]
pub struct Block { pub stmts: Vec<(Stmt, SpanId)>, pub term: Term, pub span: SpanId }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Place { pub local: usize, pub proj: Vec<Proj>, pub ty: TyId }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Proj {
    Deref, Field(usize, TyId), Index(usize),
    ConstIndex { offset: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(usize), Cast(TyId),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand { Copy(Place), Move(Place), Const(Const, TyId), RuntimeChecks }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Const {
    Int(u128), Agg(usize, Vec<Const>), Arr(Vec<Const>), Bytes(Vec<u8>), Str(String),
    Ref(Box<Const>, TyId), Static(String), Fn(FnId), Zst, Undef, Opaque(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rvalue), SetDiscr(Place, usize), Live(usize), Dead(usize), Assume(Operand),
    CopyNonOverlapping(Operand, Operand, Operand),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand), Ref(Place, bool), RawPtr(Place),
    Bin(Bin, Operand, Operand), Checked(Bin, Operand, Operand),
    Un(Un, Operand), Cast(CastK, Operand, TyId), Discr(Place), Len(Place),
    Repeat(Operand, u64), Agg(AggK, Vec<Operand>), ThreadLocal(String),
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bin { Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Un { Not, Neg, PtrMeta }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastK { IntToInt, Unsize, Transmute, PtrToPtr, ReifyFn, Other }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AggK { Array(TyId), Tuple, Adt(TyId, usize, Option<usize>), Closure(TyId), RawPtr(TyId) }
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(usize), Switch(Operand, TyId, Vec<(u128, usize)>, usize), Return, Unreachable, Resume,
    Drop(Place, usize),
    Call { func: Callee, args: Vec<Operand>, dest: Place, target: Option<usize> },
    Assert { cond: Operand, expected: bool, kind: String, ops: Vec<Operand>, target: usize },
    Other(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee { Direct(FnId), Indirect(Operand) }
