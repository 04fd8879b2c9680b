//! Conversions between the harness's model and the library's tree

use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

use firrtl_ast::circuit::Circuit as ACircuit;
use firrtl_ast::expr::primitive::Operation as AOp;
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{common, mem, simple, Register};
use firrtl_ast::module::{Direction, Instance, Kind as AMk, Module as AModule, ParamValue, Port as APort};
use firrtl_ast::stmt::print::{Format, PrintElement};
use firrtl_ast::stmt::{Entity, Kind as AK, Statement};
use firrtl_ast::types::{BundleField, GroundType, Orientation, ResetKind, Type, Typed};
use firrtl_ast::Named;

use crate::model::*;

pub type AEx = Expression<Arc<Entity>>;

// ---------------------------------------------------------------- model → AST

pub fn b_gt(g: Gt) -> GroundType {
    match g {
        Gt::UInt(w) => GroundType::UInt(w),
        Gt::SInt(w) => GroundType::SInt(w),
        Gt::Fixed(w, p) => GroundType::Fixed(w, p),
        Gt::Clock => GroundType::Clock,
        Gt::Reset => GroundType::Reset(ResetKind::Regular),
        Gt::Async => GroundType::Reset(ResetKind::Async),
        Gt::Analog(w) => GroundType::Analog(w),
    }
}

pub fn b_or(flip: bool) -> Orientation {
    if flip {
        Orientation::Flipped
    } else {
        Orientation::Normal
    }
}

pub fn b_ty(t: &Ty) -> Type {
    match t {
        Ty::G(g) => Type::GroundType(b_gt(*g)),
        Ty::V(t, w) => Type::Vector(Arc::new(b_ty(t)), *w),
        Ty::B(v) => Type::Bundle(
            v.iter()
                .map(|f| BundleField::new(f.name.clone(), b_ty(&f.ty)).with_orientation(b_or(f.flip)))
                .collect(),
        ),
    }
}

/// The second type, with the storage of whatever it has in common with the first at the same place shared
pub fn share_ty(x: &Type, y: &Type) -> Type {
    if x == y {
        return x.clone();
    }
    match (x, y) {
        (Type::Vector(t, _), Type::Vector(u, w)) => Type::Vector(if t == u { t.clone() } else { Arc::new(share_ty(t, u)) }, *w),
        (Type::Bundle(v), Type::Bundle(u)) => Type::Bundle(
            u.iter()
                .enumerate()
                .map(|(i, f)| match v.get(i) {
                    Some(g) => BundleField::new(if g.name() == f.name() { g.name().clone() } else { f.name().clone() }, share_ty(g.r#type(), f.r#type()))
                        .with_orientation(f.orientation()),
                    None => f.clone(),
                })
                .collect(),
        ),
        _ => y.clone(),
    }
}

pub fn b_ruw(r: Ruw) -> common::ReadUnderWrite {
    match r {
        Ruw::Old => common::ReadUnderWrite::Old,
        Ruw::New => common::ReadUnderWrite::New,
        Ruw::Undefined => common::ReadUnderWrite::Undefined,
    }
}

pub fn b_pdir(d: PDir) -> common::PortDir {
    match d {
        PDir::Read => common::PortDir::Read,
        PDir::Write => common::PortDir::Write,
        PDir::ReadWrite => common::PortDir::ReadWrite,
    }
}

pub fn b_fmt(f: Fmt) -> Format {
    match f {
        Fmt::B => Format::Binary,
        Fmt::D => Format::Decimal,
        Fmt::X => Format::Hexadecimal,
        Fmt::C => Format::Character,
    }
}

#[derive(Default)]
pub struct Env {
    pub ents: HashMap<N, Arc<Entity>>,
    pub mems: HashMap<N, Arc<simple::Memory>>,
}

pub fn b_ex(e: &Ex, env: &Env) -> AEx {
    let b = |e: &Ex| Arc::new(b_ex(e, env));
    match e {
        Ex::U(v, w) => Expression::UIntLiteral { value: v.clone(), width: *w },
        Ex::S(v, w) => Expression::SIntLiteral { value: v.clone(), width: *w },
        Ex::Ref(x) => Expression::Reference(
            share(env.ents.get(x).unwrap_or_else(|| panic!("HARNESS: undeclared {}", x))),
        ),
        Ex::Field(x, i) => Expression::SubField { base: b(x), index: i.clone() },
        Ex::Index(x, i) => Expression::SubIndex { base: b(x), index: *i },
        Ex::Access(x, i) => Expression::SubAccess { base: b(x), index: b(i) },
        Ex::Mux(s, x, y) => Expression::Mux { sel: b(s), a: b(x), b: b(y) },
        Ex::ValidIf(s, x) => Expression::ValidIf { sel: b(s), value: b(x) },
        Ex::Op(op, v, p) => b_op(*op, &v.iter().map(|x| b(x)).collect::<Vec<_>>(), p),
    }
}

pub fn b_op(op: Op, v: &[Arc<AEx>], p: &[i64]) -> AEx {
    let x = |i: usize| v[i].clone();
    let u = |i: usize| p[i] as u16;
    use Op::*;
    Expression::PrimitiveOp(match op {
        Add => AOp::Add(x(0), x(1)),
        Sub => AOp::Sub(x(0), x(1)),
        Mul => AOp::Mul(x(0), x(1)),
        Div => AOp::Div(x(0), x(1)),
        Rem => AOp::Rem(x(0), x(1)),
        Lt => AOp::Lt(x(0), x(1)),
        Leq => AOp::LEq(x(0), x(1)),
        Gt => AOp::Gt(x(0), x(1)),
        Geq => AOp::GEq(x(0), x(1)),
        Eq => AOp::Eq(x(0), x(1)),
        Neq => AOp::NEq(x(0), x(1)),
        Pad => AOp::Pad(x(0), u(0)),
        AsUInt => AOp::Cast(x(0), GroundType::UInt(None)),
        AsSInt => AOp::Cast(x(0), GroundType::SInt(None)),
        AsFixed => AOp::Cast(x(0), GroundType::Fixed(None, Some(p[0] as i16))),
        AsClock => AOp::Cast(x(0), GroundType::Clock),
        AsAsync => AOp::Cast(x(0), GroundType::Reset(ResetKind::Async)),
        Shl => AOp::Shl(x(0), u(0)),
        Shr => AOp::Shr(x(0), u(0)),
        Dshl => AOp::DShl(x(0), x(1)),
        Dshr => AOp::DShr(x(0), x(1)),
        Cvt => AOp::Cvt(x(0)),
        Neg => AOp::Neg(x(0)),
        Not => AOp::Not(x(0)),
        And => AOp::And(x(0), x(1)),
        Or => AOp::Or(x(0), x(1)),
        Xor => AOp::Xor(x(0), x(1)),
        Andr => AOp::AndReduce(x(0)),
        Orr => AOp::OrReduce(x(0)),
        Xorr => AOp::XorReduce(x(0)),
        Cat => AOp::Cat(x(0), x(1)),
        Bits => AOp::Bits(x(0), Some(u(1)), Some(u(0))),
        Head => AOp::Bits(x(0), None, Some(u(0))),
        Tail => AOp::Bits(x(0), Some(u(0)), None),
        Incp => AOp::IncPrecision(x(0), u(0)),
        Decp => AOp::DecPrecision(x(0), u(0)),
        Setp => AOp::SetPrecision(x(0), p[0] as i16),
    })
}

pub fn b_port(p: &Port) -> Arc<APort> {
    Arc::new(
        APort::new(p.name.clone(), b_ty(&p.ty), if p.input { Direction::Input } else { Direction::Output })
            .with_info(p.info.clone()),
    )
}

pub fn b_mem(m: &Mem) -> mem::Memory {
    let mut r = mem::Memory::new(m.name.clone(), b_ty(&m.ty), m.depth);
    r.add_ports(m.ports.iter().map(|(n, d)| mem::Port { name: n.clone(), dir: b_pdir(*d) }));
    r.with_read_latency(m.rl).with_write_latency(m.wl).with_read_under_write(b_ruw(m.ruw))
}

pub type Mods = HashMap<N, Arc<AModule>>;

thread_local! {
    /// State for deciding where to use a copy rather than the object itself
    static COPIES: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

/// The object itself or, if enabled, sometimes an equal one
fn share<T: Clone>(a: &Arc<T>) -> Arc<T> {
    let k = COPIES.with(|c| {
        let k = c.get();
        if k != 0 {
            c.set(k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1);
        }
        k
    });
    if (k >> 60) % 4 == 1 {
        Arc::new((**a).clone())
    } else {
        a.clone()
    }
}

/// Build the circuit, with copies of declared objects in some places where
/// those objects are referred to, if the seed is not zero
pub fn b_circuit_copies(c: &Circuit, seed: u64) -> ACircuit {
    COPIES.with(|c| c.set(seed));
    let r = b_circuit(c);
    COPIES.with(|c| c.set(0));
    r
}

pub fn b_decl(d: &De, env: &Env, mods: &Mods) -> Entity {
    match d {
        De::Wire(x, t) => Entity::Wire { name: x.clone(), r#type: b_ty(t) },
        De::Reg { name, ty, clk, reset } => {
            let r = Register::new(name.clone(), b_ty(ty), b_ex(clk, env));
            match reset {
                Some((s, v)) => r.with_reset(b_ex(s, env), b_ex(v, env)),
                None => r,
            }
            .into()
        }
        De::Node(x, e) => Entity::Node { name: x.clone(), value: b_ex(e, env) },
        De::Mem(m) => b_mem(m).into(),
        De::MPort { name, mem, dir, addr, clk } => simple::Port::new(
            name.clone(),
            share(env.mems.get(mem).unwrap_or_else(|| panic!("HARNESS: undeclared memory {}", mem))),
            dir.map(b_pdir),
            b_ex(addr, env),
            b_ex(clk, env),
        )
        .into(),
        De::Inst { name, module } => Instance::new(
            name.clone(),
            share(mods.get(module).unwrap_or_else(|| panic!("HARNESS: undeclared module {}", module))),
        )
        .into(),
    }
}

pub fn b_smkind(k: SmKind) -> simple::Kind {
    match k {
        SmKind::C => simple::Kind::Combinatory,
        SmKind::S(r) => simple::Kind::Sequential(r.map(b_ruw)),
    }
}

pub fn b_stmts(v: &[St], env: &mut Env, mods: &Mods) -> Vec<Statement> {
    v.iter()
        .map(|s| {
            let k = match &s.k {
                Sk::Connect(t, f) => AK::Connection { to: b_ex(t, env), from: b_ex(f, env) },
                Sk::Partial(t, f) => AK::PartialConnection { to: b_ex(t, env), from: b_ex(f, env) },
                Sk::Skip => AK::Empty,
                Sk::Decl(d) => {
                    let e = Arc::new(b_decl(d, env, mods));
                    env.ents.insert(d.name().clone(), e.clone());
                    AK::Declaration(e)
                }
                Sk::SMem(x, t, k) => {
                    let m = Arc::new(simple::Memory::new(x.clone(), b_ty(t), b_smkind(*k)));
                    env.mems.insert(x.clone(), m.clone());
                    AK::SimpleMemDecl(m)
                }
                Sk::Invalid(e) => AK::Invalidate(b_ex(e, env)),
                Sk::Attach(v) => AK::Attach(v.iter().map(|e| b_ex(e, env)).collect()),
                Sk::When(c, a, b) => {
                    let cond = b_ex(c, env);
                    let when = b_stmts(a, env, mods).into();
                    let r#else = b_stmts(b, env, mods).into();
                    AK::Conditional { cond, when, r#else }
                }
                Sk::Stop { name, clk, cond, code } => {
                    AK::Stop { name: name.clone(), clock: b_ex(clk, env), cond: b_ex(cond, env), code: *code }
                }
                Sk::Print { name, clk, cond, msg } => AK::Print {
                    name: name.clone(),
                    clock: b_ex(clk, env),
                    cond: b_ex(cond, env),
                    msg: msg
                        .iter()
                        .map(|p| match p {
                            Pe::Lit(s) => PrintElement::Literal(s.clone()),
                            Pe::Val(e, f) => PrintElement::Value(b_ex(e, env), b_fmt(*f)),
                        })
                        .collect(),
                },
            };
            Statement::from(k).with_info(s.info.clone())
        })
        .collect()
}

pub fn b_pv(v: &Pv) -> ParamValue {
    match v {
        Pv::Int(i) => ParamValue::Int(*i),
        Pv::Dbl(d) => ParamValue::Double(*d),
        Pv::Str(s) => ParamValue::String(s.as_str().into()),
    }
}

pub fn b_module(m: &Module, mods: &Mods) -> Arc<AModule> {
    let ports: Vec<_> = m.ports.iter().map(b_port).collect();
    let kind = match &m.kind {
        Mk::Reg(s) => {
            let mut env = Env::default();
            for p in &ports {
                env.ents.insert(p.name().clone(), Arc::new(p.clone().into()));
            }
            AMk::Regular { stmts: b_stmts(s, &mut env, mods) }
        }
        Mk::Ext { defname, params } => AMk::External {
            defname: defname.clone(),
            params: params.iter().map(|(k, v)| (k.clone(), b_pv(v))).collect(),
        },
    };
    Arc::new(AModule::new(m.name.clone(), ports, kind).with_info(m.info.clone()))
}

/// Build all modules in definition order
pub fn b_modules(c: &Circuit) -> Mods {
    let mut mods = Mods::new();
    for m in &c.mods {
        let x = b_module(m, &mods);
        mods.insert(m.name.clone(), x);
    }
    mods
}

pub fn b_circuit(c: &Circuit) -> ACircuit {
    ACircuit::new(b_modules(c)[&c.top].clone()).with_info(c.info.clone())
}

// ---------------------------------------------------------------- AST → model

/// A lifting problem: the tree is not what any text could denote
pub type L<T> = Result<T, String>;

pub fn l_gt(g: &GroundType) -> Gt {
    match g {
        GroundType::UInt(w) => Gt::UInt(*w),
        GroundType::SInt(w) => Gt::SInt(*w),
        GroundType::Fixed(w, p) => Gt::Fixed(*w, *p),
        GroundType::Clock => Gt::Clock,
        GroundType::Reset(ResetKind::Regular) => Gt::Reset,
        GroundType::Reset(ResetKind::Async) => Gt::Async,
        GroundType::Analog(w) => Gt::Analog(*w),
    }
}

pub fn l_ty(t: &Type) -> Ty {
    match t {
        Type::GroundType(g) => Ty::G(l_gt(g)),
        Type::Vector(t, w) => Ty::V(Box::new(l_ty(t)), *w),
        Type::Bundle(v) => Ty::B(v.iter().map(l_field).collect()),
    }
}

pub fn l_field(f: &BundleField) -> Fl {
    Fl { name: f.name().clone(), flip: f.orientation() == Orientation::Flipped, ty: l_ty(f.r#type()) }
}

pub fn l_ruw(r: common::ReadUnderWrite) -> Ruw {
    match r {
        common::ReadUnderWrite::Old => Ruw::Old,
        common::ReadUnderWrite::New => Ruw::New,
        common::ReadUnderWrite::Undefined => Ruw::Undefined,
    }
}

pub fn l_pdir(d: common::PortDir) -> PDir {
    match d {
        common::PortDir::Read => PDir::Read,
        common::PortDir::Write => PDir::Write,
        common::PortDir::ReadWrite => PDir::ReadWrite,
    }
}

pub fn l_fmt(f: Format) -> Fmt {
    match f {
        Format::Binary => Fmt::B,
        Format::Decimal => Fmt::D,
        Format::Hexadecimal => Fmt::X,
        Format::Character => Fmt::C,
    }
}

pub fn l_port(p: &APort) -> Port {
    Port {
        name: p.name().clone(),
        input: p.direction() == Direction::Input,
        ty: l_ty(p.r#type()),
        info: p.info().map(|s| s.to_string()),
    }
}

pub fn l_mem(m: &mem::Memory) -> Mem {
    Mem {
        name: m.name().clone(),
        ty: l_ty(m.data_type()),
        depth: m.depth(),
        ports: m.ports().map(|p| (p.name.clone(), l_pdir(p.dir))).collect(),
        rl: m.read_latency(),
        wl: m.write_latency(),
        ruw: l_ruw(m.read_under_write()),
    }
}

pub fn l_pv(v: &ParamValue) -> Pv {
    match v {
        ParamValue::Int(i) => Pv::Int(*i),
        ParamValue::Double(d) => Pv::Dbl(*d),
        ParamValue::String(s) => Pv::Str(s.to_string()),
    }
}

pub fn l_smem(m: &simple::Memory) -> (N, Ty, SmKind) {
    let t = match m.r#type() {
        Ok(t) => l_ty(&t),
        Err(_) => Ty::B(vec![]),
    };
    let k = match m.kind() {
        simple::Kind::Combinatory => SmKind::C,
        simple::Kind::Sequential(r) => SmKind::S(r.map(l_ruw)),
    };
    (m.name().clone(), t, k)
}

/// Expression without resolving what its references refer to
pub fn l_ex(e: &AEx, on_ref: &mut dyn FnMut(&Arc<Entity>) -> L<()>) -> L<Ex> {
    let mut b = |e: &AEx| l_ex(e, on_ref).map(Box::new);
    Ok(match e {
        Expression::UIntLiteral { value, width } => Ex::U(value.clone(), *width),
        Expression::SIntLiteral { value, width } => Ex::S(value.clone(), *width),
        Expression::Reference(r) => {
            on_ref(r)?;
            Ex::Ref(r.name().clone())
        }
        Expression::SubField { base, index } => Ex::Field(b(base)?, index.clone()),
        Expression::SubIndex { base, index } => Ex::Index(b(base)?, *index),
        Expression::SubAccess { base, index } => Ex::Access(b(base)?, b(index)?),
        Expression::Mux { sel, a, b: c } => Ex::Mux(b(sel)?, b(a)?, b(c)?),
        Expression::ValidIf { sel, value } => Ex::ValidIf(b(sel)?, b(value)?),
        Expression::PrimitiveOp(op) => {
            use AOp::*;
            let mut two = |o: Op, l: &AEx, r: &AEx| -> L<Ex> { Ok(Ex::Op(o, vec![*b(l)?, *b(r)?], vec![])) };
            match op {
                Add(l, r) => return two(Op::Add, l, r),
                Sub(l, r) => return two(Op::Sub, l, r),
                Mul(l, r) => return two(Op::Mul, l, r),
                Div(l, r) => return two(Op::Div, l, r),
                Rem(l, r) => return two(Op::Rem, l, r),
                Lt(l, r) => return two(Op::Lt, l, r),
                LEq(l, r) => return two(Op::Leq, l, r),
                Gt(l, r) => return two(Op::Gt, l, r),
                GEq(l, r) => return two(Op::Geq, l, r),
                Eq(l, r) => return two(Op::Eq, l, r),
                NEq(l, r) => return two(Op::Neq, l, r),
                DShl(l, r) => return two(Op::Dshl, l, r),
                DShr(l, r) => return two(Op::Dshr, l, r),
                And(l, r) => return two(Op::And, l, r),
                Or(l, r) => return two(Op::Or, l, r),
                Xor(l, r) => return two(Op::Xor, l, r),
                Cat(l, r) => return two(Op::Cat, l, r),
                _ => (),
            }
            let mut one = |o: Op, x: &AEx, p: Vec<i64>| -> L<Ex> { Ok(Ex::Op(o, vec![*b(x)?], p)) };
            match op {
                Pad(x, n) => one(Op::Pad, x, vec![*n as i64])?,
                Cast(x, GroundType::UInt(None)) => one(Op::AsUInt, x, vec![])?,
                Cast(x, GroundType::SInt(None)) => one(Op::AsSInt, x, vec![])?,
                Cast(x, GroundType::Fixed(None, Some(p))) => one(Op::AsFixed, x, vec![*p as i64])?,
                Cast(x, GroundType::Clock) => one(Op::AsClock, x, vec![])?,
                Cast(x, GroundType::Reset(ResetKind::Async)) => one(Op::AsAsync, x, vec![])?,
                Cast(_, t) => return Err(format!("cast to {:?} has no written form", t)),
                Shl(x, n) => one(Op::Shl, x, vec![*n as i64])?,
                Shr(x, n) => one(Op::Shr, x, vec![*n as i64])?,
                Cvt(x) => one(Op::Cvt, x, vec![])?,
                Neg(x) => one(Op::Neg, x, vec![])?,
                Not(x) => one(Op::Not, x, vec![])?,
                AndReduce(x) => one(Op::Andr, x, vec![])?,
                OrReduce(x) => one(Op::Orr, x, vec![])?,
                XorReduce(x) => one(Op::Xorr, x, vec![])?,
                Bits(x, Some(lo), Some(hi)) => one(Op::Bits, x, vec![*hi as i64, *lo as i64])?,
                Bits(x, None, Some(h)) => one(Op::Head, x, vec![*h as i64])?,
                Bits(x, Some(t), None) => one(Op::Tail, x, vec![*t as i64])?,
                Bits(_, None, None) => return Err("bit selection without bounds".into()),
                IncPrecision(x, n) => one(Op::Incp, x, vec![*n as i64])?,
                DecPrecision(x, n) => one(Op::Decp, x, vec![*n as i64])?,
                SetPrecision(x, n) => one(Op::Setp, x, vec![*n as i64])?,
                _ => unreachable!(),
            }
        }
    })
}

fn l_ex_names(e: &AEx) -> L<Ex> {
    l_ex(e, &mut |_| Ok(()))
}

/// Structural comparison of entities, transitively, without the exponential
/// blow-up of a naive comparison of shared sub-trees
#[derive(Default)]
pub struct Same {
    ents: HashSet<(usize, usize)>,
    mems: HashSet<(usize, usize)>,
    mods: HashSet<(usize, usize)>,
}

impl Same {
    fn exs(&mut self, a: &[&AEx], b: &[&AEx]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.ex(x, y))
    }
    pub fn stmts(&mut self, a: &[Statement], b: &[Statement]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.stmt(x, y))
    }
    pub fn stmt(&mut self, a: &Statement, b: &Statement) -> bool {
        if a.info() != b.info() {
            return false;
        }
        match (a.kind(), b.kind()) {
            (AK::Connection { from: f1, to: t1 }, AK::Connection { from: f2, to: t2 }) => self.exs(&[f1, t1], &[f2, t2]),
            (AK::PartialConnection { from: f1, to: t1 }, AK::PartialConnection { from: f2, to: t2 }) => self.exs(&[f1, t1], &[f2, t2]),
            (AK::Empty, AK::Empty) => true,
            (AK::Declaration(x), AK::Declaration(y)) => self.ent(x, y),
            (AK::SimpleMemDecl(x), AK::SimpleMemDecl(y)) => self.mem(x, y),
            (AK::Invalidate(x), AK::Invalidate(y)) => self.ex(x, y),
            (AK::Attach(x), AK::Attach(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| self.ex(p, q)),
            (AK::Conditional { cond: c1, when: w1, r#else: e1 }, AK::Conditional { cond: c2, when: w2, r#else: e2 }) => {
                self.ex(c1, c2) && self.stmts(w1, w2) && self.stmts(e1, e2)
            }
            (AK::Stop { name: n1, clock: k1, cond: c1, code: d1 }, AK::Stop { name: n2, clock: k2, cond: c2, code: d2 }) => {
                n1 == n2 && d1 == d2 && self.exs(&[k1, c1], &[k2, c2])
            }
            (AK::Print { name: n1, clock: k1, cond: c1, msg: m1 }, AK::Print { name: n2, clock: k2, cond: c2, msg: m2 }) => {
                n1 == n2
                    && self.exs(&[k1, c1], &[k2, c2])
                    && m1.len() == m2.len()
                    && m1.iter().zip(m2).all(|(x, y)| match (x, y) {
                        (PrintElement::Literal(x), PrintElement::Literal(y)) => x == y,
                        (PrintElement::Value(x, f), PrintElement::Value(y, g)) => l_fmt(*f) == l_fmt(*g) && self.ex(x, y),
                        _ => false,
                    })
            }
            _ => false,
        }
    }
    pub fn ex(&mut self, a: &AEx, b: &AEx) -> bool {
        let (mut ra, mut rb) = (vec![], vec![]);
        let la = l_ex(a, &mut |r| Ok(ra.push(r.clone())));
        let lb = l_ex(b, &mut |r| Ok(rb.push(r.clone())));
        la.is_ok() && la == lb && ra.len() == rb.len() && ra.iter().zip(rb.iter()).all(|(x, y)| self.ent(x, y))
    }
    pub fn ent(&mut self, a: &Arc<Entity>, b: &Arc<Entity>) -> bool {
        if Arc::ptr_eq(a, b) || self.ents.contains(&(Arc::as_ptr(a) as usize, Arc::as_ptr(b) as usize)) {
            return true;
        }
        let r = match (a.as_ref(), b.as_ref()) {
            (Entity::Port(x), Entity::Port(y)) => l_port(x) == l_port(y),
            (Entity::Wire { name: n1, r#type: t1 }, Entity::Wire { name: n2, r#type: t2 }) => n1 == n2 && l_ty(t1) == l_ty(t2),
            (Entity::Register(x), Entity::Register(y)) => {
                x.name() == y.name()
                    && x.r#type().ok().map(|t| l_ty(&t)) == y.r#type().ok().map(|t| l_ty(&t))
                    && self.ex(x.clock(), y.clock())
                    && match (x.reset_signal(), y.reset_signal()) {
                        (None, None) => true,
                        (Some(p), Some(q)) => self.ex(p, q),
                        _ => false,
                    }
                    && match (x.reset_value(), y.reset_value()) {
                        (None, None) => true,
                        (Some(p), Some(q)) => self.ex(p, q),
                        _ => false,
                    }
            }
            (Entity::Node { name: n1, value: v1 }, Entity::Node { name: n2, value: v2 }) => n1 == n2 && self.ex(v1, v2),
            (Entity::Memory(x), Entity::Memory(y)) => l_mem(x) == l_mem(y),
            (Entity::SimpleMemPort(x), Entity::SimpleMemPort(y)) => {
                x.name() == y.name()
                    && x.direction().map(l_pdir) == y.direction().map(l_pdir)
                    && self.mem(x.memory(), y.memory())
                    && self.ex(x.address(), y.address())
                    && self.ex(x.clock(), y.clock())
            }
            (Entity::Instance(x), Entity::Instance(y)) => x.name() == y.name() && self.module(x.module(), y.module()),
            _ => false,
        };
        if r {
            self.ents.insert((Arc::as_ptr(a) as usize, Arc::as_ptr(b) as usize));
        }
        r
    }
    pub fn mem(&mut self, a: &Arc<simple::Memory>, b: &Arc<simple::Memory>) -> bool {
        let k = (Arc::as_ptr(a) as usize, Arc::as_ptr(b) as usize);
        if Arc::ptr_eq(a, b) || self.mems.contains(&k) {
            return true;
        }
        let r = l_smem(a) == l_smem(b);
        if r {
            self.mems.insert(k);
        }
        r
    }
    pub fn module(&mut self, a: &Arc<AModule>, b: &Arc<AModule>) -> bool {
        let k = (Arc::as_ptr(a) as usize, Arc::as_ptr(b) as usize);
        if Arc::ptr_eq(a, b) || self.mods.contains(&k) {
            return true;
        }
        let r = match (lift_module(a), lift_module(b)) {
            (Ok((x, dx)), Ok((y, dy))) => {
                x == y && dx.len() == dy.len() && dx.iter().zip(dy.iter()).all(|(p, q)| self.module(p, q))
            }
            _ => false,
        };
        if r {
            self.mods.insert(k);
        }
        r
    }
}

struct Lifter {
    ents: HashMap<N, Arc<Entity>>,
    mems: HashMap<N, Arc<simple::Memory>>,
    same: Same,
    deps: Vec<Arc<AModule>>,
}

impl Lifter {
    fn ex(&mut self, e: &AEx) -> L<Ex> {
        let (ents, same) = (&self.ents, &mut self.same);
        l_ex(e, &mut |r| match ents.get(r.name()) {
            None => Err(format!("reference to {:?}, which is not declared before its use", r.name())),
            Some(d) if same.ent(d, r) => Ok(()),
            Some(_) => Err(format!("reference to {:?} does not refer to the latest preceding declaration of that name", r.name())),
        })
    }

    fn decl(&mut self, e: &Entity) -> L<De> {
        Ok(match e {
            Entity::Port(_) => return Err("declaration of a port as statement".into()),
            Entity::Wire { name, r#type } => De::Wire(name.clone(), l_ty(r#type)),
            Entity::Register(r) => {
                let ty = match r.r#type() {
                    Ok(t) => l_ty(&t),
                    Err(_) => return Err("register without type".into()),
                };
                let reset = match (r.reset_signal(), r.reset_value()) {
                    (None, None) => None,
                    (Some(a), Some(b)) => Some((self.ex(a)?, self.ex(b)?)),
                    _ => return Err("register with half a reset".into()),
                };
                De::Reg { name: r.name().clone(), ty, clk: self.ex(r.clock())?, reset }
            }
            Entity::Node { name, value } => De::Node(name.clone(), self.ex(value)?),
            Entity::Memory(m) => De::Mem(l_mem(m)),
            Entity::SimpleMemPort(p) => {
                let m = p.memory();
                match self.mems.get(m.name()) {
                    None => return Err(format!("port of memory {:?}, which is not declared before", m.name())),
                    Some(d) if self.same.mem(d, m) => (),
                    Some(_) => return Err(format!("port of {:?} does not refer to the latest preceding declaration of that memory", m.name())),
                }
                De::MPort {
                    name: p.name().clone(),
                    mem: m.name().clone(),
                    dir: p.direction().map(l_pdir),
                    addr: self.ex(p.address())?,
                    clk: self.ex(p.clock())?,
                }
            }
            Entity::Instance(i) => {
                self.deps.push(i.module().clone());
                De::Inst { name: i.name().clone(), module: i.module().name().clone() }
            }
        })
    }

    fn stmts(&mut self, v: &[Statement]) -> L<Vec<St>> {
        v.iter()
            .map(|s| {
                let k = match s.kind() {
                    AK::Connection { from, to } => Sk::Connect(self.ex(to)?, self.ex(from)?),
                    AK::PartialConnection { from, to } => Sk::Partial(self.ex(to)?, self.ex(from)?),
                    AK::Empty => Sk::Skip,
                    AK::Declaration(e) => {
                        let d = self.decl(e)?;
                        self.ents.insert(e.name().clone(), e.clone());
                        Sk::Decl(d)
                    }
                    AK::SimpleMemDecl(m) => {
                        self.mems.insert(m.name().clone(), m.clone());
                        let (a, b, c) = l_smem(m);
                        Sk::SMem(a, b, c)
                    }
                    AK::Invalidate(e) => Sk::Invalid(self.ex(e)?),
                    AK::Attach(v) => Sk::Attach(v.iter().map(|e| self.ex(e)).collect::<L<_>>()?),
                    AK::Conditional { cond, when, r#else } => {
                        let c = self.ex(cond)?;
                        let a = self.stmts(when)?;
                        let b = self.stmts(r#else)?;
                        Sk::When(c, a, b)
                    }
                    AK::Stop { name, clock, cond, code } => {
                        Sk::Stop { name: name.clone(), clk: self.ex(clock)?, cond: self.ex(cond)?, code: *code }
                    }
                    AK::Print { name, clock, cond, msg } => Sk::Print {
                        name: name.clone(),
                        clk: self.ex(clock)?,
                        cond: self.ex(cond)?,
                        msg: msg
                            .iter()
                            .map(|p| {
                                Ok(match p {
                                    PrintElement::Literal(s) => Pe::Lit(s.clone()),
                                    PrintElement::Value(e, f) => Pe::Val(self.ex(e)?, l_fmt(*f)),
                                })
                            })
                            .collect::<L<_>>()?,
                    },
                };
                Ok(St { k, info: s.info().map(|s| s.to_string()) })
            })
            .collect()
    }
}

/// Lift one module; also yields the instantiated modules in textual order
pub fn lift_module(m: &AModule) -> L<(Module, Vec<Arc<AModule>>)> {
    let ports: Vec<_> = m.ports().map(|p| l_port(p)).collect();
    let (kind, deps) = match m.kind() {
        AMk::Regular { stmts } => {
            let mut l = Lifter { ents: HashMap::new(), mems: HashMap::new(), same: Same::default(), deps: vec![] };
            for p in m.ports() {
                l.ents.insert(p.name().clone(), Arc::new(Entity::Port(p.clone())));
            }
            let s = l.stmts(stmts).map_err(|e| format!("module {:?}: {}", m.name(), e))?;
            (Mk::Reg(s), l.deps)
        }
        AMk::External { defname, params } => (
            Mk::Ext {
                defname: defname.clone(),
                params: params.iter().map(|(k, v)| (k.clone(), l_pv(v))).collect::<BTreeMap<_, _>>(),
            },
            vec![],
        ),
    };
    Ok((Module { name: m.name().clone(), info: m.info().map(|s| s.to_string()), ports, kind }, deps))
}

/// Lift a circuit: everything reachable from its top module
pub fn lift(c: &ACircuit) -> L<View> {
    let mut mods: BTreeMap<N, Module> = BTreeMap::new();
    let mut seen: HashMap<N, Arc<AModule>> = HashMap::new();
    let mut same = Same::default();
    let mut todo = vec![c.top_module().clone()];
    while let Some(m) = todo.pop() {
        if let Some(o) = seen.get(m.name()) {
            if !same.module(o, &m) {
                return Err(format!("two different modules named {:?}", m.name()));
            }
            continue;
        }
        seen.insert(m.name().clone(), m.clone());
        let (x, deps) = lift_module(&m)?;
        mods.insert(x.name.clone(), x);
        todo.extend(deps);
    }
    Ok(View { top: c.top_module().name().clone(), info: c.info().map(|s| s.to_string()), mods })
}

pub fn names_only(e: &AEx) -> L<Ex> {
    l_ex_names(e)
}
