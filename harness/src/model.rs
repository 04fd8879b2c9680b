//! The harness's own representation of a circuit: names instead of pointers,
//! so it can be compared, hashed and written down independently of the library.

use num_bigint::{BigInt, BigUint};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type N = Arc<str>;

pub fn n(s: impl AsRef<str>) -> N {
    Arc::from(s.as_ref())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Gt {
    UInt(Option<u16>),
    SInt(Option<u16>),
    Fixed(Option<u16>, Option<i16>),
    Clock,
    Reset,
    Async,
    Analog(Option<u16>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fl {
    pub name: N,
    pub flip: bool,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    G(Gt),
    V(Box<Ty>, u16),
    B(Vec<Fl>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Add, Sub, Mul, Div, Rem, Lt, Leq, Gt, Geq, Eq, Neq,
    Pad, AsUInt, AsSInt, AsFixed, AsClock, AsAsync,
    Shl, Shr, Dshl, Dshr, Cvt, Neg, Not, And, Or, Xor,
    Andr, Orr, Xorr, Cat, Bits, Head, Tail, Incp, Decp, Setp,
}

pub const OPS: [Op; 37] = [
    Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Lt, Op::Leq, Op::Gt, Op::Geq, Op::Eq, Op::Neq,
    Op::Pad, Op::AsUInt, Op::AsSInt, Op::AsFixed, Op::AsClock, Op::AsAsync,
    Op::Shl, Op::Shr, Op::Dshl, Op::Dshr, Op::Cvt, Op::Neg, Op::Not, Op::And, Op::Or, Op::Xor,
    Op::Andr, Op::Orr, Op::Xorr, Op::Cat, Op::Bits, Op::Head, Op::Tail, Op::Incp, Op::Decp, Op::Setp,
];

impl Op {
    /// Keyword, number of operand expressions, number of integer parameters
    pub fn sig(self) -> (&'static str, usize, usize) {
        use Op::*;
        match self {
            Add => ("add", 2, 0), Sub => ("sub", 2, 0), Mul => ("mul", 2, 0), Div => ("div", 2, 0),
            Rem => ("rem", 2, 0), Lt => ("lt", 2, 0), Leq => ("leq", 2, 0), Gt => ("gt", 2, 0),
            Geq => ("geq", 2, 0), Eq => ("eq", 2, 0), Neq => ("neq", 2, 0),
            Pad => ("pad", 1, 1), AsUInt => ("asUInt", 1, 0), AsSInt => ("asSInt", 1, 0),
            AsFixed => ("asFixed", 1, 1), AsClock => ("asClock", 1, 0), AsAsync => ("asAsyncReset", 1, 0),
            Shl => ("shl", 1, 1), Shr => ("shr", 1, 1), Dshl => ("dshl", 2, 0), Dshr => ("dshr", 2, 0),
            Cvt => ("cvt", 1, 0), Neg => ("neg", 1, 0), Not => ("not", 1, 0),
            And => ("and", 2, 0), Or => ("or", 2, 0), Xor => ("xor", 2, 0),
            Andr => ("andr", 1, 0), Orr => ("orr", 1, 0), Xorr => ("xorr", 1, 0),
            Cat => ("cat", 2, 0), Bits => ("bits", 1, 2), Head => ("head", 1, 1), Tail => ("tail", 1, 1),
            Incp => ("incp", 1, 1), Decp => ("decp", 1, 1), Setp => ("setp", 1, 1),
        }
    }
    pub fn signed_param(self) -> bool {
        matches!(self, Op::AsFixed | Op::Setp)
    }
}

/// Expression; `Bits` parameters are stored in the order high, low
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ex {
    U(BigUint, u16),
    S(BigInt, u16),
    Ref(N),
    Field(Box<Ex>, N),
    Index(Box<Ex>, u16),
    Access(Box<Ex>, Box<Ex>),
    Mux(Box<Ex>, Box<Ex>, Box<Ex>),
    ValidIf(Box<Ex>, Box<Ex>),
    Op(Op, Vec<Ex>, Vec<i64>),
}

impl Ex {
    pub fn subs(&self) -> Vec<&Ex> {
        match self {
            Ex::U(..) | Ex::S(..) | Ex::Ref(_) => vec![],
            Ex::Field(b, _) | Ex::Index(b, _) => vec![b],
            Ex::Access(b, i) => vec![b, i],
            Ex::Mux(s, a, b) => vec![s, a, b],
            Ex::ValidIf(s, a) => vec![s, a],
            Ex::Op(_, v, _) => v.iter().collect(),
        }
    }
    pub fn refs(&self, out: &mut Vec<N>) {
        if let Ex::Ref(x) = self {
            out.push(x.clone())
        }
        for s in self.subs() {
            s.refs(out)
        }
    }
    pub fn size(&self) -> usize {
        1 + self.subs().iter().map(|s| s.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.subs().iter().map(|s| s.depth()).max().unwrap_or(0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ruw {
    Old,
    New,
    Undefined,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PDir {
    Read,
    Write,
    ReadWrite,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mem {
    pub name: N,
    pub ty: Ty,
    pub depth: u64,
    pub ports: Vec<(N, PDir)>,
    pub rl: u16,
    pub wl: u16,
    pub ruw: Ruw,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum De {
    Wire(N, Ty),
    Reg { name: N, ty: Ty, clk: Ex, reset: Option<(Ex, Ex)> },
    Node(N, Ex),
    Mem(Mem),
    MPort { name: N, mem: N, dir: Option<PDir>, addr: Ex, clk: Ex },
    Inst { name: N, module: N },
}

impl De {
    pub fn name(&self) -> &N {
        match self {
            De::Wire(x, _) | De::Node(x, _) => x,
            De::Reg { name, .. } | De::MPort { name, .. } | De::Inst { name, .. } => name,
            De::Mem(m) => &m.name,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    B,
    D,
    X,
    C,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pe {
    Lit(String),
    Val(Ex, Fmt),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SmKind {
    C,
    S(Option<Ruw>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sk {
    Connect(Ex, Ex),
    Partial(Ex, Ex),
    Skip,
    Decl(De),
    SMem(N, Ty, SmKind),
    Invalid(Ex),
    Attach(Vec<Ex>),
    When(Ex, Vec<St>, Vec<St>),
    Stop { name: Option<N>, clk: Ex, cond: Ex, code: i64 },
    Print { name: Option<N>, clk: Ex, cond: Ex, msg: Vec<Pe> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct St {
    pub k: Sk,
    pub info: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Port {
    pub name: N,
    pub input: bool,
    pub ty: Ty,
    pub info: Option<String>,
}

#[derive(Clone, Debug)]
pub enum Pv {
    Int(i64),
    Dbl(f64),
    Str(String),
}

impl PartialEq for Pv {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Pv::Int(a), Pv::Int(b)) => a == b,
            (Pv::Dbl(a), Pv::Dbl(b)) => a == b,
            (Pv::Str(a), Pv::Str(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Pv {}
impl std::hash::Hash for Pv {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            Pv::Int(a) => (0, *a).hash(h),
            Pv::Dbl(a) => (1, if *a == 0.0 { 0 } else { a.to_bits() }).hash(h),
            Pv::Str(a) => (2, a).hash(h),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mk {
    Reg(Vec<St>),
    Ext { defname: Option<N>, params: BTreeMap<N, Pv> },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Module {
    pub name: N,
    pub info: Option<String>,
    pub ports: Vec<Port>,
    pub kind: Mk,
}

impl Module {
    pub fn stmts(&self) -> &[St] {
        match &self.kind {
            Mk::Reg(s) => s,
            _ => &[],
        }
    }
    /// Names of instantiated modules in textual order, with repetitions
    pub fn insts(&self) -> Vec<N> {
        let mut out = vec![];
        walk(self.stmts(), &mut |s| {
            if let Sk::Decl(De::Inst { module, .. }) = &s.k {
                out.push(module.clone())
            }
        });
        out
    }
}

/// Text of a circuit: all modules in definition order, and the top's name
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Circuit {
    pub top: N,
    pub info: Option<String>,
    pub mods: Vec<Module>,
}

impl Circuit {
    pub fn module(&self, name: &str) -> Option<&Module> {
        self.mods.iter().find(|m| &*m.name == name)
    }
    /// The circuit's content: reachable modules by name
    pub fn reachable(&self) -> View {
        let mut mods = BTreeMap::new();
        let mut todo = vec![self.top.clone()];
        while let Some(x) = todo.pop() {
            if mods.contains_key(&x) {
                continue;
            }
            if let Some(m) = self.module(&x) {
                mods.insert(x, m.clone());
                todo.extend(m.insts());
            }
        }
        View { top: self.top.clone(), info: self.info.clone(), mods }
    }
    pub fn normalized(mut self) -> Self {
        for m in &mut self.mods {
            norm_module(m)
        }
        self
    }
}

/// What a parsed or built circuit amounts to
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct View {
    pub top: N,
    pub info: Option<String>,
    pub mods: BTreeMap<N, Module>,
}

impl View {
    pub fn normalized(mut self) -> Self {
        for m in self.mods.values_mut() {
            norm_module(m)
        }
        self
    }
}

pub fn norm_module(m: &mut Module) {
    if let Mk::Reg(s) = &mut m.kind {
        norm(s)
    }
}

/// An empty first branch and one consisting of a single, bare `skip` are the
/// same thing in writing
pub fn norm(v: &mut Vec<St>) {
    for s in v {
        if let Sk::When(_, a, b) = &mut s.k {
            if a.is_empty() {
                a.push(St { k: Sk::Skip, info: None })
            }
            norm(a);
            norm(b);
        }
    }
}

pub fn walk<'a>(v: &'a [St], f: &mut impl FnMut(&'a St)) {
    for s in v {
        f(s);
        if let Sk::When(_, a, b) = &s.k {
            walk(a, f);
            walk(b, f);
        }
    }
}

/// All expressions appearing directly in a statement (not in nested ones)
pub fn stmt_exprs(s: &St) -> Vec<&Ex> {
    match &s.k {
        Sk::Connect(a, b) | Sk::Partial(a, b) => vec![a, b],
        Sk::Skip | Sk::SMem(..) => vec![],
        Sk::Decl(d) => match d {
            De::Reg { clk, reset, .. } => {
                let mut v = vec![clk];
                if let Some((a, b)) = reset {
                    v.push(a);
                    v.push(b);
                }
                v
            }
            De::Node(_, e) => vec![e],
            De::MPort { addr, clk, .. } => vec![addr, clk],
            _ => vec![],
        },
        Sk::Invalid(e) => vec![e],
        Sk::Attach(v) => v.iter().collect(),
        Sk::When(c, ..) => vec![c],
        Sk::Stop { clk, cond, .. } => vec![clk, cond],
        Sk::Print { clk, cond, msg, .. } => {
            let mut v = vec![clk, cond];
            v.extend(msg.iter().filter_map(|p| if let Pe::Val(e, _) = p { Some(e) } else { None }));
            v
        }
    }
}

/// First difference between two Debug renderings, for messages
pub fn diff<T: std::fmt::Debug>(a: &T, b: &T) -> String {
    let (a, b) = (format!("{:#?}", a), format!("{:#?}", b));
    let (la, lb): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let mut i = 0;
    while i < la.len() && i < lb.len() && la[i] == lb[i] {
        i += 1;
    }
    let from = i.saturating_sub(6);
    let show = |v: &Vec<&str>| v.iter().skip(from).take(18).map(|s| s.to_string()).collect::<Vec<_>>().join("\n");
    format!("first difference (line {}):\n--- expected\n{}\n--- got\n{}", i, show(&la), show(&lb))
}
