//! Tree nodes: queries, constructors, builders, accessors

use std::collections::HashMap;
use std::error::Error as _;
use std::sync::Arc;

use firrtl_ast::circuit::{Circuit as ACircuit, ModuleConsumer};
use firrtl_ast::error::ParseError;
use firrtl_ast::expr::primitive::Operation as AOp;
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{common, mem, simple, Register};
use firrtl_ast::module::{Direction, Instance, Kind as AMk, Module as AModule, Modules, ParamValue, Port as APort};
use firrtl_ast::stmt::print::PrintElement;
use firrtl_ast::stmt::{Entity, Kind as AK, Statement};
use firrtl_ast::types::{BundleField, GroundType, Orientation, ResetKind, Type, Typed};
use firrtl_ast::Named;
use transiter::AutoTransIter;

use super::*;
use crate::conv::*;
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{Gen, Opts};
use crate::tape::Src;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C14",
        rule: "random trees (expressions with shared sub-expressions, nested statements with shared branches, modules, bundles and module lists with repeated names) are queried and compared, by identity of the items, with the items put in; non-trivial: at least two items are to be reported",
        quick: 2_400_000,
        thorough: 96_000_000,
        run: c14,
    },
    Prop {
        id: "C21",
        rule: "random sequences of constructor, setter and builder calls on one node of each kind are followed by a model of its properties, comparing all accessors after every step; non-trivial: at least two calls after construction",
        quick: 8_000_000,
        thorough: 320_000_000,
        run: c21,
    },
];

// ------------------------------------------------------------------- C14

fn pt<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

fn bag(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

struct Ast<'a> {
    s: &'a mut Src,
    ents: Vec<Arc<Entity>>,
    exprs: Vec<Arc<AEx>>,
    /// occurrences of references in each expression
    refs: Vec<Vec<usize>>,
    /// occurrences of expressions below each expression
    subs: Vec<Vec<usize>>,
    mods: Vec<Arc<AModule>>,
    branches: Vec<(Arc<[Statement]>, Found)>,
    left: usize,
}

#[derive(Clone, Default)]
struct Found {
    decls: Vec<usize>,
    insts: Vec<usize>,
    mods: Vec<usize>,
    /// statements below
    stmts: Vec<usize>,
}

impl Found {
    fn add(&mut self, o: &Found) {
        self.stmts.extend(&o.stmts);
        self.decls.extend(&o.decls);
        self.insts.extend(&o.insts);
        self.mods.extend(&o.mods);
    }
}

/// Names easily confused with others
const ODD_NAMES: [&str; 18] = [
    "A", "aa", "a_", "_a", "a0", "1", "01", "10", "001", "+1", "\u{661}", "ä", "a\u{308}", "Ä", "a.b", "a ", "a\0", "",
];

impl Ast<'_> {
    fn name(&mut self) -> N {
        n(if self.s.chance(1, 4) { *self.s.pick(&ODD_NAMES) } else { *self.s.pick(&["a", "b", "c", "d"]) })
    }
    /// A number of items, rarely large, and how they are named in that case
    fn many(&mut self, k: usize) -> (usize, Option<usize>) {
        if self.s.chance(1, 60) {
            let k = *self.s.pick(&[8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]);
            (k, Some(self.s.below(6)))
        } else {
            (self.s.range(0, k), None)
        }
    }
    /// Name of one of `k` items
    fn one_of(&mut self, i: usize, k: usize, many: Option<usize>) -> N {
        n(&match many {
            None => return self.name(),
            // one of the names being looked up last, first or in the middle
            _ if i + 1 == k && self.s.coin() => return self.name(),
            _ if self.s.chance(1, 50) => return self.name(),
            Some(0) => format!("x{:03}", i),
            Some(1) => format!("x{:03}", k - i),
            Some(2) => format!("{}", i),
            Some(3) => format!("x{}", (i * 7919) % 1009),
            Some(4) => format!("x{}", i / 2),
            _ => format!("{}", (b'a' + (i % 26) as u8) as char),
        })
    }
    fn entity(&mut self) -> Arc<Entity> {
        if !self.ents.is_empty() && self.s.chance(1, 4) {
            return self.s.pick(&self.ents).clone();
        }
        let name = self.name();
        let ty = Type::GroundType(GroundType::UInt(Some(4)));
        let e = match self.s.below(7) {
            0 => Entity::Wire { name, r#type: ty },
            1 => Arc::new(APort::new(name, ty, Direction::Input)).into(),
            2 => Entity::Node { name, value: self.expr() },
            3 => Register::new(name, ty, self.expr()).into(),
            4 => mem::Memory::new(name, ty, 4u64).into(),
            5 if !self.mods.is_empty() => {
                let m = self.s.pick(&self.mods).clone();
                Instance::new(name, m).into()
            }
            6 => {
                let m = Arc::new(simple::Memory::new("m", Type::Vector(Arc::new(ty), 3), simple::Kind::Combinatory));
                let (a, b) = (self.expr(), self.expr());
                simple::Port::new(name, m, None, a, b).into()
            }
            _ => Entity::Wire { name, r#type: ty },
        };
        let e = Arc::new(e);
        self.ents.push(e.clone());
        e
    }
    fn arg(&mut self) -> usize {
        let k = self.exprs.len();
        // mostly recent ones, so that expressions get deep
        let lo = if self.s.coin() { k.saturating_sub(3) } else { 0 };
        self.s.range(lo, k - 1)
    }
    fn expr(&mut self) -> AEx {
        if self.exprs.is_empty() {
            return Expression::UIntLiteral { value: 1u8.into(), width: 1 };
        }
        let i = self.arg();
        (*self.exprs[i]).clone()
    }
    /// Add one expression, built from previous ones; check its operands
    fn grow(&mut self) -> Res {
        let k = if self.exprs.is_empty() { 0 } else { self.s.range(0, 12) };
        let mut args: Vec<usize> = vec![];
        let mut own = vec![];
        macro_rules! arg {
            () => {{
                let i = self.arg();
                args.push(i);
                self.exprs[i].clone()
            }};
        }
        let e = match k {
            0 => {
                let e = self.entity();
                own.push(Arc::as_ptr(&e) as usize);
                if self.s.coin() {
                    Expression::Reference(e)
                } else {
                    e.into()
                }
            }
            1 => Expression::UIntLiteral { value: 3u8.into(), width: 2 },
            2 => Expression::SIntLiteral { value: 0u8.into(), width: 2 },
            3 => Expression::SubField { base: arg!(), index: n("f") },
            4 => Expression::SubIndex { base: arg!(), index: 3 },
            5 => Expression::SubAccess { base: arg!(), index: arg!() },
            6 => Expression::Mux { sel: arg!(), a: arg!(), b: arg!() },
            7 => Expression::ValidIf { sel: arg!(), value: arg!() },
            8 => Expression::PrimitiveOp(match self.s.below(5) {
                0 => AOp::Cast(arg!(), GroundType::Reset(ResetKind::Regular)),
                1 => AOp::Cast(arg!(), GroundType::Analog(None)),
                2 => AOp::Cast(arg!(), GroundType::Fixed(None, None)),
                3 => AOp::Bits(arg!(), None, None),
                _ => AOp::Cast(arg!(), GroundType::UInt(Some(3))),
            }),
            _ => {
                let op = *self.s.pick(&OPS);
                let (_, a, p) = op.sig();
                let v: Vec<_> = (0..a).map(|_| arg!()).collect();
                b_op(op, &v, &vec![1; p])
            }
        };
        let (mut refs, mut subs) = (own, vec![]);
        for i in &args {
            refs.extend(&self.refs[*i]);
            subs.push(Arc::as_ptr(&self.exprs[*i]) as usize);
            subs.extend(&self.subs[*i]);
        }
        if subs.len() > 500 {
            return Ok(());
        }
        if let Expression::PrimitiveOp(op) = &e {
            let got: Vec<usize> = op.sub_exprs().into_iter().map(|x| Arc::as_ptr(x) as usize).collect();
            let want: Vec<usize> = args.iter().map(|i| Arc::as_ptr(&self.exprs[*i]) as usize).collect();
            ensure!(got == want, format!("{}", e), "the operands reported for an operation are not those it was made of ({} instead of {})", got.len(), want.len());
            let e2: AEx = op.clone().into();
            ensure!(matches!(e2, Expression::PrimitiveOp(_)), "", "an operation does not become an expression of it");
        }
        let got = bag(e.references().map(|r| Arc::as_ptr(r) as usize).collect());
        let want = bag(refs.clone());
        ensure!(got == want, format!("{}", e), "{} references reported, {} in the expression", got.len(), want.len());
        let mut got: Vec<usize> = (&e).trans_iter().map(pt).collect();
        ensure!(!got.is_empty() && got.remove(0) == pt(&e), format!("{}", e), "the walk over an expression does not begin with it");
        ensure!(
            bag(got.clone()) == bag(subs.clone()),
            format!("{}", e),
            "{} expressions below an expression are visited, {} exist",
            got.len(),
            subs.len()
        );
        self.exprs.push(Arc::new(e));
        self.refs.push(refs);
        self.subs.push(subs);
        Ok(())
    }
    fn stmt(&mut self, d: usize) -> (Statement, Found) {
        let mut f = Found::default();
        let k = match self.s.weighted(&[8, 1, 1, 1, 1, 1, 1, 1, 1, if d > 0 { 5 } else { 0 }]) {
            0 => {
                let e = self.entity();
                f.decls.push(Arc::as_ptr(&e) as usize);
                if let Entity::Instance(i) = &*e {
                    f.insts.push(pt(i));
                    f.mods.push(Arc::as_ptr(i.module()) as usize);
                }
                AK::Declaration(e)
            }
            1 => AK::Connection { to: self.expr(), from: self.expr() },
            2 => AK::PartialConnection { to: self.expr(), from: self.expr() },
            3 => AK::Empty,
            4 => AK::SimpleMemDecl(Arc::new(simple::Memory::new(
                "m",
                Type::GroundType(GroundType::Clock),
                simple::Kind::Sequential(None),
            ))),
            5 => AK::Invalidate(self.expr()),
            6 => AK::Attach(vec![self.expr(), self.expr()]),
            7 => AK::Stop { name: None, clock: self.expr(), cond: self.expr(), code: 0 },
            8 => AK::Print {
                name: None,
                clock: self.expr(),
                cond: self.expr(),
                msg: vec![PrintElement::Value(self.expr(), b_fmt(Fmt::D))],
            },
            _ => {
                let cond = self.expr();
                let (when, a) = self.branch(d - 1);
                let (r#else, b) = self.branch(d - 1);
                f.add(&a);
                f.add(&b);
                AK::Conditional { cond, when, r#else }
            }
        };
        (k.into(), f)
    }
    fn branch(&mut self, d: usize) -> (Arc<[Statement]>, Found) {
        if !self.branches.is_empty() && self.s.chance(1, 6) {
            return self.s.pick(&self.branches).clone();
        }
        let k = self.s.range(0, 3).min(self.left);
        self.left -= k;
        let (mut v, mut f) = (vec![], Found::default());
        for _ in 0..k {
            let (s, x) = self.stmt(d);
            v.push(s);
            f.add(&x);
        }
        let mut r: (Arc<[Statement]>, Found) = (v.into(), f);
        r.1.stmts.extend(r.0.iter().map(pt));
        if r.1.stmts.len() < 100 {
            self.branches.push(r.clone());
        }
        r
    }
}

fn check_stmt(s: &Statement, f: &Found) -> Res {
    let got = bag(s.declarations().map(|e| Arc::as_ptr(e) as usize).collect());
    ensure!(got == bag(f.decls.clone()), format!("{:#?}", s), "{} declarations reported, {} in the statement", got.len(), f.decls.len());
    let got = bag(s.instantiations().map(pt).collect());
    ensure!(got == bag(f.insts.clone()), format!("{:#?}", s), "{} instantiations reported, {} in the statement", got.len(), f.insts.len());
    let mut got: Vec<usize> = s.trans_iter().map(pt).collect();
    ensure!(!got.is_empty() && got.remove(0) == pt(s), format!("{:#?}", s), "the walk over a statement does not begin with it");
    ensure!(bag(got.clone()) == bag(f.stmts.clone()), format!("{:#?}", s), "{} statements below a statement are visited, {} exist", got.len(), f.stmts.len());
    Ok(())
}

fn c14(cx: &mut Cx) -> Res {
    let size = cx.size;
    let mut items = 0;
    let mut mods: Vec<Arc<AModule>> = vec![];
    // expressions and operations
    let mut a = Ast { s: &mut cx.src, ents: vec![], exprs: vec![], refs: vec![], subs: vec![], mods: vec![], branches: vec![], left: size * 3 };
    for _ in 0..size {
        a.grow()?;
    }
    items += a.refs.iter().map(|r| r.len()).max().unwrap_or(0);
    // modules with ports
    for i in 0..a.s.range(1, 4) {
        let (k, many) = a.many(5);
        let ports: Vec<_> = (0..k)
            .map(|j| {
                let name = a.one_of(j, k, many);
                Arc::new(APort::new(name, Type::GroundType(GroundType::UInt(Some(j as u16))), Direction::Input))
            })
            .collect();
        let mut found = Found::default();
        let mut stmts = vec![];
        if a.s.chance(4, 5) {
            let k = a.s.range(0, 6);
            for _ in 0..k {
                let (s, f) = a.stmt(4);
                check_stmt(&s, &f)?;
                found.add(&f);
                stmts.push(s);
            }
        }
        let ext = stmts.is_empty() && a.s.coin();
        let kind = if ext { AMk::External { defname: None, params: HashMap::new() } } else { AMk::Regular { stmts: stmts.clone() } };
        items += found.decls.len();
        let at = kind.statements().len();
        ensure!(at == stmts.len(), "", "{} statements instead of {}", at, stmts.len());
        let name = a.name();
        let m = AModule::new(name, ports.iter().cloned(), kind);
        let got = bag(m.referenced_modules().map(|m| Arc::as_ptr(m) as usize).collect());
        ensure!(got == bag(found.mods.clone()), format!("module {}", i), "{} modules reported as instantiated, {} are", got.len(), found.mods.len());
        let got: Vec<usize> = m.ports().map(|p| Arc::as_ptr(p) as usize).collect();
        let want: Vec<usize> = ports.iter().map(|p| Arc::as_ptr(p) as usize).collect();
        ensure!(got == want, "", "ports reported: {} instead of {}", got.len(), want.len());
        ensure!(m.statements().len() == stmts.len(), "", "{} statements instead of {}", m.statements().len(), stmts.len());
        let given: Vec<&str> = if k > 6 { ports.iter().map(|p| p.name_ref()).collect() } else { vec![] };
        for x in ["a", "b", "c", "d"].iter().chain(&ODD_NAMES).chain(&given) {
            let x = *x;
            let got = m.port_by_name(&x).map(|p| Arc::as_ptr(p) as usize);
            let want = ports.iter().find(|p| p.name_ref() == x).map(|p| Arc::as_ptr(p) as usize);
            ensure!(got == want, "", "port {:?} found: {}, exists: {} (or is not the first one)", x, got.is_some(), want.is_some());
            ensure!(m.port_by_name(&x.to_string()).map(|p| Arc::as_ptr(p) as usize) == want, "", "port {:?}: result depends on the kind of string", x);
        }
        let m = Arc::new(m);
        a.mods.push(m.clone());
        mods.push(m);
    }
    for e in &a.ents {
        let d = !matches!(**e, Entity::Port(_));
        ensure!(e.is_declarable() == d, "", "entity {:?} is declarable: {}", e.name(), !d);
    }
    // fields
    let names = ["a", "b", "c", "d"];
    let (k, many) = a.many(6);
    let fields: Vec<BundleField> = (0..k)
        .map(|i| {
            let x = a.one_of(i, k, many);
            let o = b_or(a.s.coin());
            let inner = match a.s.below(3) {
                0 => Type::Bundle(vec![BundleField::new("a", GroundType::UInt(Some(99)))].into()),
                1 => Type::Vector(Arc::new(Type::GroundType(GroundType::SInt(Some(i as u16)))), 2),
                _ => Type::GroundType(GroundType::UInt(Some(i as u16))),
            };
            BundleField::new(x, inner).with_orientation(o)
        })
        .collect();
    items += fields.len();
    let t = match a.s.below(2) {
        0 => Type::from(fields.clone()),
        _ => fields.iter().cloned().collect::<Type>(),
    };
    let got: Option<Vec<Fl>> = t.fields().map(|f| f.map(l_field).collect());
    let want: Vec<Fl> = fields.iter().map(l_field).collect();
    ensure!(got.as_ref() == Some(&want), format!("{}", t), "fields are not reported as put in");
    let given: Vec<&str> = if k > 6 { want.iter().map(|f| &*f.name).collect() } else { vec![] };
    for x in names.iter().chain(&ODD_NAMES).chain(&given) {
        let got = t.field(x).map(l_field);
        let want = want.iter().find(|f| &*f.name == *x).cloned();
        ensure!(got == want, format!("{}", t), "field {:?} found: {:?} instead of {:?}", x, got, want);
    }
    let v = Type::Vector(Arc::new(t.clone()), 7);
    ensure!(v.fields().is_none() && v.field("a").is_none(), format!("{}", v), "a vector has fields");
    ensure!(
        matches!(v.vector(), Some((b, 7)) if l_ty(b) == l_ty(&t)) && v.vector_base().map(|b| l_ty(b)) == Some(l_ty(&t)),
        format!("{}", v),
        "base or length of a vector is wrong"
    );
    ensure!(t.vector().is_none() && t.vector_base().is_none(), format!("{}", t), "a bundle is a vector");
    let g = Type::from(GroundType::Clock);
    ensure!(g.fields().is_none() && g.field("a").is_none() && g.vector().is_none(), "", "a ground type has fields or elements");
    // modules
    let text = "  module t1 :\n    skip\n  extmodule t2 :\n  module a :\n    inst x of t1\n";
    let defs = ["t1", "t2", "a"];
    let mut list = Modules::new(text);
    let mut known: HashMap<String, usize> = HashMap::new();
    let mut stepped = 0;
    for _ in 0..a.s.range(0, 6) {
        if a.s.coin() {
            let m = a.s.pick(&a.mods).clone();
            known.insert(m.name_ref().into(), Arc::as_ptr(&m) as usize);
            list.add_module(m);
        } else if stepped < 3 {
            match list.next() {
                Some(Ok(m)) if m.name_ref() == defs[stepped] => {
                    known.insert(m.name_ref().into(), Arc::as_ptr(&m) as usize);
                }
                _ => return fail(format!("module {:?} missing", defs[stepped]), text),
            }
            stepped += 1;
        }
        for x in ["a", "b", "c", "d", "t1", "t2"].iter().chain(&ODD_NAMES) {
            let got = list.module(x).map(|m| Arc::as_ptr(m) as usize);
            ensure!(got == known.get(*x).copied(), text, "module {:?} found: {}, exists: {} (or is not the latest one)", x, got.is_some(), known.contains_key(*x));
        }
    }
    let exprs: Vec<String> = a.exprs.iter().filter(|e| printable(e)).map(|e| e.to_string()).collect();
    let shape: Vec<usize> = a.mods.iter().map(|m| m.statements().len()).collect();
    cx.checks(items as u64);
    cx.add("items", items as u64);
    if items >= 2 {
        cx.nontrivial(&(exprs.clone(), shape, want));
    }
    cx.sample(|| format!("{}\n{}", exprs.join("\n"), t));
    Ok(())
}

/// Some trees have no written form
fn printable(e: &AEx) -> bool {
    let ok = match e {
        Expression::PrimitiveOp(AOp::Bits(_, None, None)) => false,
        Expression::PrimitiveOp(AOp::Cast(_, t)) => {
            matches!(t, GroundType::UInt(None) | GroundType::SInt(None) | GroundType::Clock | GroundType::Fixed(None, Some(_)) | GroundType::Reset(ResetKind::Async))
        }
        _ => true,
    };
    ok && match e {
        Expression::PrimitiveOp(op) => op.sub_exprs().into_iter().all(|x| printable(x)),
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => printable(base),
        Expression::SubAccess { base, index } => printable(base) && printable(index),
        Expression::Mux { sel, a, b } => printable(sel) && printable(a) && printable(b),
        Expression::ValidIf { sel, value } => printable(sel) && printable(value),
        _ => true,
    }
}

// ------------------------------------------------------------------- C21

struct B<'c, 's> {
    cx: &'c mut Cx<'s>,
    log: Vec<String>,
    calls: usize,
}

macro_rules! same {
    ($b:expr, $got:expr, $want:expr, $($what:tt)+) => {{
        $b.cx.checks(1);
        let (got, want) = ($got, $want);
        ensure!(got == want, $b.log.join("\n"), "{}: {:?} instead of {:?}", format!($($what)+), got, want);
    }};
}

impl B<'_, '_> {
    fn name(&mut self) -> N {
        let o = Opts::full(2);
        Gen::new(&mut self.cx.src, o).name()
    }
    fn ty(&mut self) -> Ty {
        let o = Opts::full(2);
        Gen::new(&mut self.cx.src, o).ty(2)
    }
    fn info(&mut self) -> Option<String> {
        if self.cx.src.chance(1, 4) {
            return None;
        }
        Some(crate::gen::string(&mut self.cx.src, true))
    }
    fn ex(&mut self) -> Ex {
        let o = Opts::full(2);
        Gen::new(&mut self.cx.src, o).lit_u()
    }
    fn steps(&mut self) -> usize {
        let k = self.cx.size.min(12);
        self.cx.src.range(0, k)
    }
    fn op(&mut self, s: String) {
        self.calls += 1;
        self.log.push(s);
    }
    fn infos<T: WithInfo>(&mut self, mut x: T, cur: &mut Option<String>, check: &mut dyn FnMut(&mut Self, &T) -> Res) -> Result<T, crate::engine::Fail> {
        same!(self, x.info(), cur.as_deref(), "info after construction");
        for _ in 0..self.steps() {
            match self.cx.src.below(3) {
                0 => {
                    let i = self.info();
                    self.op(format!("set_info({:?})", i));
                    x.set_info(i.clone());
                    *cur = i;
                }
                1 => {
                    let i = self.info();
                    self.op(format!("with_info({:?})", i));
                    x = x.with_info(i.clone());
                    *cur = i;
                }
                _ => {
                    self.op("clear_info()".into());
                    x.clear_info();
                    *cur = None;
                }
            }
            same!(self, x.info(), cur.as_deref(), "info");
            check(self, &x)?;
        }
        Ok(x)
    }
}

fn c21(cx: &mut Cx) -> Res {
    let kind = cx.src.below(11);
    let mut b = B { cx, log: vec![], calls: 0 };
    let what = match kind {
        0 => {
            field(&mut b)?;
            "fields"
        }
        1 => {
            memory(&mut b)?;
            "memories"
        }
        2 => {
            register(&mut b)?;
            "registers"
        }
        3 => {
            port(&mut b)?;
            "ports"
        }
        4 => {
            module(&mut b)?;
            "modules"
        }
        5 => {
            statement(&mut b)?;
            "statements"
        }
        6 => {
            circuit(&mut b)?;
            "circuits"
        }
        7 => {
            ground(&mut b)?;
            "ground types"
        }
        8 => {
            simples(&mut b)?;
            "simple memories and instances"
        }
        9 => {
            entities(&mut b)?;
            "entities"
        }
        _ => {
            errors(&mut b)?;
            "errors"
        }
    };
    let (log, calls) = (b.log, b.calls);
    cx.count(what);
    if calls >= 2 {
        cx.nontrivial(&log);
    }
    cx.sample(|| log.join("\n"));
    Ok(())
}

fn field(b: &mut B) -> Res {
    let (name, mut ty, mut flip) = (b.name(), b.ty(), false);
    b.log.push(format!("BundleField::new({:?}, {:?})", name, ty));
    let mut x = if b.cx.src.coin() { BundleField::new(name.clone(), b_ty(&ty)) } else { BundleField::new(&*name, b_ty(&ty)) };
    for i in 0..=b.steps() {
        if i > 0 {
            match b.cx.src.below(3) {
                0 => {
                    ty = b.ty();
                    b.op(format!("with_type({:?})", ty));
                    x = match &ty {
                        Ty::G(g) if b.cx.src.coin() => x.with_type(b_gt(*g)),
                        t => x.with_type(b_ty(t)),
                    };
                }
                1 => {
                    flip = b.cx.src.coin();
                    b.op(format!("with_orientation(flipped: {})", flip));
                    x = x.with_orientation(b_or(flip));
                }
                _ => {
                    flip = !flip;
                    b.op("flipped()".into());
                    x = x.flipped();
                }
            }
        }
        same!(b, x.name(), &name, "name");
        same!(b, x.name_ref(), &*name, "name_ref");
        same!(b, l_ty(x.r#type()), ty.clone(), "type");
        same!(b, Typed::r#type(&x).ok().map(|t| l_ty(&t)), Some(ty.clone()), "type (Typed)");
        same!(b, x.orientation() == Orientation::Flipped, flip, "flipped");
    }
    Ok(())
}

fn memory(b: &mut B) -> Res {
    let (name, ty) = (b.name(), b.ty());
    let depth = b.cx.src.u64() >> b.cx.src.below(64);
    b.log.push(format!("Memory::new({:?}, {:?}, {})", name, ty, depth));
    let mut x = mem::Memory::new(name.clone(), b_ty(&ty), depth);
    let mut w = Mem { name: name.clone(), ty, depth, ports: vec![], rl: 0, wl: 0, ruw: Ruw::Undefined };
    for i in 0..=b.steps() {
        if i > 0 {
            let known = w.ports.clone();
            let fresh = |b: &mut B| {
                // sometimes a port (or only its name) once more
                let p = match b.cx.src.below(if known.is_empty() { 4 } else { 6 }) {
                    4 => b.cx.src.pick(&known).clone(),
                    5 => (b.cx.src.pick(&known).0.clone(), *b.cx.src.pick(&[PDir::Read, PDir::Write, PDir::ReadWrite])),
                    _ => (b.name(), *b.cx.src.pick(&[PDir::Read, PDir::Write, PDir::ReadWrite])),
                };
                (p.clone(), mem::Port { name: p.0, dir: b_pdir(p.1) })
            };
            match b.cx.src.below(5) {
                0 => {
                    let (m, p) = fresh(b);
                    b.op(format!("add_port({:?})", m));
                    x.add_port(p);
                    w.ports.push(m);
                }
                1 => {
                    let k = b.cx.src.range(0, 3);
                    let v: Vec<_> = (0..k).map(|_| fresh(b)).collect();
                    b.op(format!("add_ports({:?})", v.iter().map(|p| &p.0).collect::<Vec<_>>()));
                    w.ports.extend(v.iter().map(|p| p.0.clone()));
                    x.add_ports(v.into_iter().map(|p| p.1));
                }
                2 => {
                    w.rl = b.cx.src.below(65536) as u16;
                    b.op(format!("with_read_latency({})", w.rl));
                    x = x.with_read_latency(w.rl);
                }
                3 => {
                    w.wl = b.cx.src.below(65536) as u16;
                    b.op(format!("with_write_latency({})", w.wl));
                    x = x.with_write_latency(w.wl);
                }
                _ => {
                    w.ruw = *b.cx.src.pick(&[Ruw::Old, Ruw::New, Ruw::Undefined]);
                    b.op(format!("with_read_under_write({:?})", w.ruw));
                    x = x.with_read_under_write(b_ruw(w.ruw));
                }
            }
        }
        same!(b, l_mem(&x), w.clone(), "memory");
        same!(b, x.name_ref(), &*name, "name_ref");
    }
    let e = Entity::from(x);
    match &e {
        Entity::Memory(m) => same!(b, l_mem(m), w.clone(), "memory as entity"),
        _ => return fail("a memory becomes another kind of entity", b.log.join("\n")),
    }
    same!(b, e.name_ref(), &*name, "name of the entity");
    Ok(())
}

fn register(b: &mut B) -> Res {
    let (name, ty, clk) = (b.name(), b.ty(), b.ex());
    let env = Env::default();
    b.log.push(format!("Register::new({:?}, {:?}, {:?})", name, ty, clk));
    let mut x: Register<Arc<Entity>> = Register::new(name.clone(), b_ty(&ty), b_ex(&clk, &env));
    let mut reset: Option<(Ex, Ex)> = None;
    for i in 0..=b.steps() {
        if i > 0 {
            match b.cx.src.below(4) {
                0 => {
                    let r = (b.ex(), b.ex());
                    b.op(format!("with_reset({:?})", r));
                    x = x.with_reset(b_ex(&r.0, &env), b_ex(&r.1, &env));
                    reset = Some(r);
                }
                1 => {
                    let r = (b.ex(), b.ex());
                    b.op(format!("with_optional_reset(Some({:?}))", r));
                    x = x.with_optional_reset(Some((b_ex(&r.0, &env), b_ex(&r.1, &env))));
                    reset = Some(r);
                }
                2 => {
                    b.op("with_optional_reset(None)".into());
                    x = x.with_optional_reset(None);
                    reset = None;
                }
                _ => {
                    b.op("without_reset()".into());
                    x = x.without_reset();
                    reset = None;
                }
            }
        }
        same!(b, x.name_ref(), &*name, "name");
        same!(b, x.r#type().ok().map(|t| l_ty(&t)), Some(ty.clone()), "type");
        same!(b, names_only(x.clock()), Ok(clk.clone()), "clock");
        same!(b, x.reset_signal().map(|e| names_only(e).unwrap()), reset.clone().map(|r| r.0), "reset signal");
        same!(b, x.reset_value().map(|e| names_only(e).unwrap()), reset.clone().map(|r| r.1), "reset value");
    }
    let e = Entity::from(x);
    same!(b, matches!(e, Entity::Register(_)), true, "is a register");
    same!(b, e.name_ref(), &*name, "name of the entity");
    Ok(())
}

fn port(b: &mut B) -> Res {
    let (name, ty, input) = (b.name(), b.ty(), b.cx.src.coin());
    b.log.push(format!("Port::new({:?}, {:?}, input: {})", name, ty, input));
    let x = APort::new(name.clone(), b_ty(&ty), if input { Direction::Input } else { Direction::Output });
    let mut check = |b: &mut B, x: &APort| -> Res {
        same!(b, x.name_ref(), &*name, "name");
        same!(b, l_ty(x.r#type()), ty.clone(), "type");
        same!(b, Typed::r#type(x).ok().map(|t| l_ty(&t)), Some(ty.clone()), "computed type");
        same!(b, x.direction() == Direction::Input, input, "is an input");
        same!(b, x.direction().keyword(), if input { "input" } else { "output" }, "keyword");
        Ok(())
    };
    check(b, &x)?;
    let mut cur = None;
    let x = b.infos(x, &mut cur, &mut check)?;
    let e = Entity::from(Arc::new(x));
    match &e {
        Entity::Port(p) => {
            check(b, p)?;
            same!(b, p.info(), cur.as_deref(), "info")
        }
        _ => return fail("a port becomes another kind of entity", b.log.join("\n")),
    }
    Ok(())
}

fn gen_module(b: &mut B, name: &N) -> Module {
    let o = Opts { max_mods: 1, ..Opts::full(2) };
    let ext = b.cx.src.chance(1, 3);
    Gen::new(&mut b.cx.src, o).module(name.clone(), &[], ext)
}

fn module(b: &mut B) -> Res {
    let name = b.name();
    let mut w = gen_module(b, &name);
    w.info = None;
    // nothing keeps a module from having the same port or statement twice
    if b.cx.src.chance(1, 4) && !w.ports.is_empty() {
        let (i, j) = (b.cx.src.below(w.ports.len()), b.cx.src.below(w.ports.len() + 1));
        let p = w.ports[i].clone();
        w.ports.insert(j, p);
    }
    if let Mk::Reg(v) = &mut w.kind {
        if b.cx.src.chance(1, 4) && !v.is_empty() {
            let i = b.cx.src.below(v.len());
            v.push(v[i].clone());
        }
    }
    b.log.push(format!("Module::new of {:?}", w));
    let built = b_module(&w, &Default::default());
    let mut x = AModule::new(name.clone(), built.ports().cloned(), built.kind().clone());
    let keyword = |w: &Module| if matches!(w.kind, Mk::Reg(_)) { "module" } else { "extmodule" };
    fn check(b: &mut B, x: &AModule, w: &Module, kw: &str) -> Res {
        match lift_module(x) {
            Ok((m, _)) => same!(b, m, w.clone(), "module"),
            Err(e) => return fail(e, b.log.join("\n")),
        }
        same!(b, x.kind().keyword(), kw, "keyword");
        same!(b, x.statements().len(), w.stmts().len(), "number of statements");
        same!(b, x.kind().statements().len(), w.stmts().len(), "number of statements of the kind");
        same!(b, x.name_ref(), &*w.name, "name");
        Ok(())
    }
    check(b, &x, &w, keyword(&w))?;
    for _ in 0..b.steps().min(4) {
        match b.cx.src.below(6) {
            0 => {
                b.op("kind_mut() = empty_regular()".into());
                *x.kind_mut() = AMk::empty_regular();
                w.kind = Mk::Reg(vec![]);
            }
            1 => {
                b.op("kind_mut() = empty_external()".into());
                *x.kind_mut() = AMk::empty_external();
                w.kind = Mk::Ext { defname: None, params: Default::default() };
            }
            2 => {
                b.op("kind_mut() = default()".into());
                *x.kind_mut() = AMk::default();
                w.kind = Mk::Reg(vec![]);
            }
            3 => {
                b.op("push a statement or parameter".into());
                match (x.kind_mut(), &mut w.kind) {
                    (AMk::Regular { stmts }, Mk::Reg(s)) => {
                        stmts.push(AK::Empty.into());
                        s.push(St { k: Sk::Skip, info: None });
                    }
                    (AMk::External { params, .. }, Mk::Ext { params: p, .. }) => {
                        params.insert(n("zz"), ParamValue::Int(-5));
                        p.insert(n("zz"), Pv::Int(-5));
                    }
                    _ => return fail("kind_mut() is not the module's kind", b.log.join("\n")),
                }
            }
            _ => {
                let i = b.info();
                b.op(format!("set_info({:?})", i));
                x.set_info(i.clone());
                w.info = i;
            }
        }
        check(b, &x, &w, keyword(&w))?;
    }
    let mut cur = w.info.clone();
    let base = w.clone();
    let x = b.infos(x, &mut cur, &mut |b, x| check(b, x, &Module { info: x.info().map(|s| s.into()), ..base.clone() }, keyword(&base)))?;
    w.info = cur;
    check(b, &x, &w, keyword(&w))
}

fn statement(b: &mut B) -> Res {
    let name = n("m");
    let w = gen_module(b, &name);
    let built = b_module(&w, &Default::default());
    let Some(s) = w.stmts().last() else { return Ok(()) };
    let a = built.statements().last().unwrap();
    let x = Statement::from(a.kind().clone());
    b.log.push(format!("Statement::from({:?})", s.k));
    let want = a.kind().clone();
    let mut cur = None;
    let simple = matches!(s.k, Sk::Skip | Sk::Decl(De::Wire(..)) | Sk::SMem(..) | Sk::Decl(De::Mem(_)));
    b.infos(x, &mut cur, &mut |b, x| {
        let k: &AK = x.as_ref();
        same!(b, pt(k), pt(x.kind()), "kind by reference");
        if simple {
            same!(b, x.kind() == &want, true, "kind unchanged");
        }
        same!(b, std::mem::discriminant(x.kind()), std::mem::discriminant(&want), "kind");
        Ok(())
    })?;
    Ok(())
}

fn circuit(b: &mut B) -> Res {
    let name = b.name();
    let w = gen_module(b, &name);
    let m = b_module(&w, &Default::default());
    b.log.push(format!("Circuit::new of {:?}", w));
    let x = ACircuit::new(m.clone());
    let p = Arc::as_ptr(&m) as usize;
    same!(b, Arc::as_ptr(x.top_module()) as usize, p, "top module");
    let mut cur = None;
    let x = b.infos(x, &mut cur, &mut |b, x| {
        same!(b, Arc::as_ptr(x.top_module()) as usize, p, "top module");
        Ok(())
    })?;
    drop(x);
    // the same through a consumer of given modules
    let other = b_module(&Module { name: n("zz other"), ..w.clone() }, &Default::default());
    let info = b.info();
    let mut v: Vec<Result<Arc<AModule>, ParseError>> = vec![Ok(m.clone()), Ok(other.clone()), Ok(other)];
    let k = b.cx.src.below(3);
    v.swap(0, k);
    b.op(format!("ModuleConsumer::new({:?}, {:?}, top at {})", name, info, k));
    let mut con = ModuleConsumer::new(&*name, info.clone(), v.into_iter());
    for i in 0..3 {
        same!(b, con.circuit().is_some(), i > k, "circuit available after {} modules", i);
        same!(b, con.next().map(|r| r.is_ok()), Some(true), "module {}", i);
    }
    same!(b, con.next().is_none(), true, "ends");
    match (con.circuit(), con.into_circuit()) {
        (Some(x), Ok(y)) => {
            same!(b, Arc::as_ptr(x.top_module()) as usize, p, "top module of the consumer's circuit");
            same!(b, Arc::as_ptr(y.top_module()) as usize, p, "top module of the final circuit");
            same!(b, x.info(), info.as_deref(), "info of the consumer's circuit");
            same!(b, y.info(), info.as_deref(), "info of the final circuit");
        }
        _ => return fail("no circuit from a consumer of modules", b.log.join("\n")),
    }
    Ok(())
}

fn ground(b: &mut B) -> Res {
    let o = Opts::full(2);
    let mut w = Gen::new(&mut b.cx.src, o).ground();
    let mut x = b_gt(w);
    b.log.push(format!("{:?}", w));
    for i in 0..=b.steps() {
        if i > 0 {
            let o = Opts::full(2);
            let k = Gen::new(&mut b.cx.src, o).width();
            b.op(format!("with_width({:?})", k));
            x = x.with_width(k);
            match &mut w {
                Gt::UInt(v) | Gt::SInt(v) | Gt::Fixed(v, _) | Gt::Analog(v) => *v = k,
                Gt::Clock | Gt::Reset | Gt::Async => (),
            }
        }
        same!(b, l_gt(&x), w, "ground type");
        same!(b, x.width(), crate::oracle::width(w), "width");
    }
    Ok(())
}

fn simples(b: &mut B) -> Res {
    let (name, ty) = (b.name(), b.ty());
    let k = *b.cx.src.pick(&[SmKind::C, SmKind::S(None), SmKind::S(Some(Ruw::Old)), SmKind::S(Some(Ruw::New)), SmKind::S(Some(Ruw::Undefined))]);
    b.op(format!("simple::Memory::new({:?}, {:?}, {:?})", name, ty, k));
    let m = Arc::new(simple::Memory::new(name.clone(), b_ty(&ty), b_smkind(k)));
    same!(b, l_smem(&m), (name.clone(), ty.clone(), k), "simple memory");
    same!(b, m.kind().keyword(), if k == SmKind::C { "cmem" } else { "smem" }, "keyword");
    same!(b, m.name_ref(), &*name, "name_ref");
    let (pn, addr, clk) = (b.name(), b.ex(), b.ex());
    let dir = *b.cx.src.pick(&[None, Some(PDir::Read), Some(PDir::Write), Some(PDir::ReadWrite)]);
    b.op(format!("simple::Port::new({:?}, _, {:?}, {:?}, {:?})", pn, dir, addr, clk));
    let env = Env::default();
    let p: simple::Port<Arc<Entity>> =
        simple::Port::new(pn.clone(), m.clone(), dir.map(b_pdir), b_ex(&addr, &env), b_ex(&clk, &env));
    let check = |b: &mut B, p: &simple::Port<Arc<Entity>>| -> Res {
        same!(b, p.name_ref(), &*pn, "name");
        same!(b, Arc::as_ptr(p.memory()) as usize, Arc::as_ptr(&m) as usize, "memory");
        same!(b, p.direction().map(l_pdir), dir, "direction");
        same!(b, names_only(p.address()), Ok(addr.clone()), "address");
        same!(b, names_only(p.clock()), Ok(clk.clone()), "clock");
        Ok(())
    };
    check(b, &p)?;
    let e = Entity::from(p);
    match &e {
        Entity::SimpleMemPort(p) => check(b, p)?,
        _ => return fail("a memory port becomes another kind of entity", b.log.join("\n")),
    }
    same!(b, e.name_ref(), &*pn, "name of the entity");
    for (r, k) in [(Ruw::Old, "old"), (Ruw::New, "new"), (Ruw::Undefined, "undefined")] {
        same!(b, b_ruw(r).keyword(), k, "keyword");
        same!(b, b_ruw(r).to_string(), k.to_string(), "keyword as text");
    }
    same!(b, common::ReadUnderWrite::default(), common::ReadUnderWrite::Undefined, "default");
    // instance
    let (iname, mname) = (b.name(), b.name());
    let w = gen_module(b, &mname);
    let md = b_module(&w, &Default::default());
    b.op(format!("Instance::new({:?}, {:?})", iname, mname));
    let i = Instance::new(iname.clone(), md.clone());
    same!(b, i.name_ref(), &*iname, "name of the instance");
    same!(b, Arc::as_ptr(i.module()) as usize, Arc::as_ptr(&md) as usize, "module of the instance");
    match &Entity::from(i) {
        Entity::Instance(i) => {
            same!(b, i.name_ref(), &*iname, "name of the instance as entity");
            same!(b, Arc::as_ptr(i.module()) as usize, Arc::as_ptr(&md) as usize, "module of the instance as entity");
        }
        _ => return fail("an instance becomes another kind of entity", b.log.join("\n")),
    }
    Ok(())
}

fn entities(b: &mut B) -> Res {
    let (name, ty, e) = (b.name(), b.ty(), b.ex());
    b.op(format!("wire {:?}: {:?}", name, ty));
    let w = Arc::new(Entity::Wire { name: name.clone(), r#type: b_ty(&ty) });
    same!(b, w.name_ref(), &*name, "name of a wire");
    same!(b, Named::name(&w), &name, "name of a shared wire");
    same!(b, w.r#type().ok().map(|t| l_ty(&t)), Some(ty), "type of a wire");
    b.op(format!("node {:?} = {:?}", name, e));
    let v = Arc::new(Entity::Node { name: name.clone(), value: b_ex(&e, &Env::default()) });
    same!(b, v.name_ref(), &*name, "name of a node");
    let r: AEx = w.clone().into();
    same!(b, matches!(&r, Expression::Reference(x) if Arc::ptr_eq(x, &w)), true, "reference made of an entity");
    for k in [SmKind::C, SmKind::S(None)] {
        same!(b, b_smkind(k).keyword(), if k == SmKind::C { "cmem" } else { "smem" }, "keyword");
    }
    same!(b, AMk::default().keyword(), "module", "keyword of the default kind");
    same!(b, AMk::empty_external().keyword(), "extmodule", "keyword of an external module");
    same!(b, Direction::Input.to_string() + &Direction::Output.to_string(), "inputoutput".to_string(), "directions");
    Ok(())
}

fn errors(b: &mut B) -> Res {
    let s = crate::gen::string(&mut b.cx.src, true);
    b.op(format!("ParseError::from({:?})", s));
    let e = ParseError::from(s.clone());
    same!(b, matches!(&e, ParseError::Other(x) if *x == s), true, "error made of a message");
    same!(b, e.to_string(), s.clone(), "message");
    same!(b, e.source().is_none(), true, "no cause");
    use std::io::ErrorKind as Ek;
    let k = *b.cx.src.pick(&[Ek::NotFound, Ek::UnexpectedEof, Ek::InvalidData, Ek::BrokenPipe, Ek::TimedOut, Ek::Other]);
    b.op(format!("ParseError::from({:?})", k));
    let e = ParseError::from(k);
    same!(b, matches!(&e, ParseError::IO(x) if x.kind() == k), true, "error made of an error kind");
    same!(b, e.source().map(|x| x.to_string()), Some(std::io::Error::from(k).to_string()), "cause");
    let e = ParseError::from(std::io::Error::new(k, s.clone()));
    same!(b, matches!(&e, ParseError::IO(x) if x.kind() == k), true, "error made of an I/O error");
    same!(b, e.source().map(|x| x.to_string()), Some(s), "cause");
    same!(b, e.source().and_then(|x| x.downcast_ref::<std::io::Error>()).map(|x| x.kind()), Some(k), "kind of the cause");
    Ok(())
}
