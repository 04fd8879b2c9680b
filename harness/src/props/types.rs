//! Types, flow, equivalence, width combination, entity types

use std::collections::{HashMap, HashSet};
use std::sync::Arc;

use firrtl_ast::expr::{Expression, Flow, Reference};
use firrtl_ast::memory::{common, mem, simple, Register};
use firrtl_ast::module::{Direction, Instance, Port as APort};
use firrtl_ast::stmt::Entity;
use firrtl_ast::types::{
    combine_fixed_max, combinator::FnWidth, required_address_width, BundleField, Combinator, GroundType, MaxWidth, Orientation, OrientedType, Type,
    TypeExt, Typed,
};
use firrtl_ast::Named;

use super::*;
use crate::conv::{b_module, b_decl, b_ex, b_gt, b_mem, b_or, b_pdir, b_port, b_smkind, b_ty, share_ty, l_gt, l_ty, AEx, Env, Mods};
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{Gen, Opts, Scope};
use crate::oracle::{self, Exp, Fw, Or};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        rule: "operations over operands of boundary-biased types, and random expression trees over declared entities, every sub-expression judged from the library's types of its operands; non-trivial: the rules make a claim about at least one sub-expression other than a literal or reference",
        quick: 10_000_000,
        thorough: 320_000_000,
        run: c09,
    },
    Prop {
        id: "C10",
        rule: "random paths and expressions over entities of all kinds, every sub-expression judged; non-trivial: the expression selects at least one field",
        quick: 5_000_000,
        thorough: 160_000_000,
        run: c10,
    },
    Prop {
        id: "C11",
        rule: "pairs of types derived from one another by up to one structural change, changed widths or re-oriented fields, and independent ones; non-trivial: not both are ground types",
        quick: 5_000_000,
        thorough: 200_000_000,
        run: c11,
    },
    Prop {
        id: "C12",
        rule: "pairs of types as for equivalence, with boundary-biased widths and points; non-trivial: the types differ",
        quick: 8_000_000,
        thorough: 320_000_000,
        run: c12,
    },
    Prop {
        id: "C13",
        rule: "random instances, memories, memory ports, registers, wires and nodes with random and boundary depths; non-trivial: an instance or memory with at least one port, or a register, memory port or node",
        quick: 3_000_000,
        thorough: 120_000_000,
        run: c13,
    },
    Prop {
        id: "C25",
        rule: "random expressions over references of user-defined types: mirroring entities (compared with the expression over the entities) or of arbitrary type and flow (compared with the rules); non-trivial: the expression has a reference and is not only a reference",
        quick: 1_500_000,
        thorough: 60_000_000,
        run: c25,
    },
];

// ------------------------------------------------------------- entities

struct World {
    sc: Scope,
    env: Env,
    /// type and flow of each visible entity
    info: HashMap<N, (Option<Ty>, Option<Fw>)>,
    desc: String,
}

/// What the rules say of a declared entity; nodes are judged from the
/// library's type of their value
fn rule_of(d: &De, sc: &Scope, e: &Arc<Entity>) -> Option<Ty> {
    match d {
        De::Wire(_, t) => Some(t.clone()),
        De::Reg { ty, .. } => Some(ty.clone()),
        De::Node(..) => match e.as_ref() {
            Entity::Node { value, .. } => value.r#type().ok().map(|t| l_ty(&t)),
            _ => None,
        },
        De::Mem(m) => Some(oracle::mem_ty(m)),
        De::MPort { .. } | De::Inst { .. } => sc.get(d.name()).and_then(|v| v.ty.clone()),
    }
}

fn world(cx: &mut Cx, decls: usize) -> World {
    let mut o = Opts::full(6);
    o.untyped = 25;
    o.infos = false;
    let mut g = Gen::new(&mut cx.src, o);
    let mut mods = Mods::new();
    let mut mtypes = vec![];
    let mut used = HashSet::new();
    let mut sc = Scope::default();
    let mut env = Env::default();
    let mut info: HashMap<N, (Option<Ty>, Option<Fw>)> = HashMap::new();
    let mut desc = String::new();
    for _ in 0..g.s.below(3) {
        let name = g.fresh(&mut used);
        let mut s2 = Scope::default();
        let mut u2 = HashSet::new();
        let m = Module { name: name.clone(), info: None, ports: g.ports(&mut s2, &mut u2), kind: Mk::Ext { defname: None, params: Default::default() } };
        mtypes.push((name.clone(), oracle::inst_ty(&m.ports)));
        desc.push_str(&format!("{:?}\n", m));
        mods.insert(name, crate::conv::b_module(&m, &Mods::new()));
    }
    sc.mods = mtypes;
    let mut used = HashSet::new();
    for p in g.ports(&mut sc, &mut used) {
        desc.push_str(&format!("{:?}\n", p));
        env.ents.insert(p.name.clone(), Arc::new(Entity::Port(b_port(&p))));
        info.insert(p.name.clone(), (Some(p.ty.clone()), Some(if p.input { Fw::Source } else { Fw::Sink })));
    }
    for _ in 0..g.s.below(3) {
        let name = g.fresh(&mut used);
        let ty = g.smem_ty();
        let k = if g.s.coin() { SmKind::C } else { SmKind::S(None) };
        env.mems.insert(name.clone(), Arc::new(simple::Memory::new(name.clone(), b_ty(&ty), b_smkind(k))));
        sc.add_smem(name, ty);
    }
    for _ in 0..decls {
        let d = g.decl(&mut sc, &mut used);
        desc.push_str(&format!("{:?}\n", d));
        let e = Arc::new(b_decl(&d, &env, &mods));
        let t = rule_of(&d, &sc, &e);
        env.ents.insert(d.name().clone(), e);
        // the generator's own idea of a node's type may be more precise
        sc.vars.iter_mut().filter(|v| &v.name == d.name()).for_each(|v| v.ty = t.clone());
        info.insert(d.name().clone(), (t, oracle::decl_flow(&d)));
    }
    World { sc, env, info, desc }
}

fn lib_type(e: &AEx) -> Option<Ty> {
    e.r#type().ok().map(|t| l_ty(&t))
}

fn lib_flow(e: &AEx) -> Option<Fw> {
    e.flow().ok().map(|f| l_flow(f))
}

fn l_flow(f: Flow) -> Fw {
    match f {
        Flow::Source => Fw::Source,
        Flow::Sink => Fw::Sink,
        Flow::Duplex => Fw::Duplex,
    }
}

// ------------------------------------------------------------------- C09

/// Check an expression and everything in it; yields the library's type
fn judge(cx: &mut Cx, e: &Ex, w: &World, claims: &mut usize) -> Result<Option<Ty>, crate::engine::Fail> {
    let mut subs = vec![];
    for s in e.subs() {
        subs.push(judge(cx, s, w, claims)?);
    }
    let got = lib_type(&b_ex(e, &w.env));
    let want = oracle::node(e, &subs, |x| w.info.get(x).and_then(|i| i.0.clone()));
    match (&want, e) {
        (Exp::Any, _) => cx.count("no claim"),
        (Exp::Err, _) => {
            *claims += 1;
            cx.count("must be an error")
        }
        (_, Ex::Op(op, ..)) => {
            *claims += 1;
            cx.count(op.sig().0)
        }
        (_, Ex::Ref(_)) | (_, Ex::U(..)) | (_, Ex::S(..)) => cx.count("literal or reference"),
        (_, Ex::Mux(..)) => {
            *claims += 1;
            cx.count("mux")
        }
        _ => {
            *claims += 1;
            cx.count("selection or validif")
        }
    }
    cx.checks(1);
    ensure!(
        want.admits(got.as_ref()),
        format!("{:?}\noperand types {:#?}\nin\n{}", e, subs, w.desc),
        "type of {} is {:?}, but should be {:?}",
        b_ex(e, &w.env),
        got,
        want
    );
    Ok(got)
}

fn wire_world(wires: Vec<(&str, Ty)>) -> World {
    let mut w = World { sc: Scope::default(), env: Env::default(), info: HashMap::new(), desc: String::new() };
    for (x, t) in wires {
        w.desc.push_str(&format!("wire {} : {:?}\n", x, t));
        w.env.ents.insert(n(x), Arc::new(Entity::Wire { name: n(x), r#type: b_ty(&t) }));
        w.info.insert(n(x), (Some(t.clone()), Some(Fw::Duplex)));
        w.sc.add(n(x), Some(t), 1);
    }
    w
}

/// A ground type suitable for the operation, mostly
fn operand(g: &mut Gen, op: Op, i: usize, first: Option<&Ty>) -> Ty {
    if g.s.chance(1, 12) {
        return g.ty(2);
    }
    let kind = |g: &mut Gen, v: &[usize]| -> Ty {
        let k = *g.s.pick(v);
        Ty::G(match k {
            0 => Gt::UInt(g.width()),
            1 => Gt::SInt(g.width()),
            2 => {
                let (w, p) = (g.width(), g.point());
                // points close to the width
                let p = match (w, p) {
                    (Some(w), Some(_)) if g.s.chance(1, 3) => Some((w as i64 + g.s.range(0, 4) as i64 - 2).clamp(-32768, 32767) as i16),
                    (_, p) => p,
                };
                Gt::Fixed(w, p)
            }
            3 => Gt::Clock,
            4 => Gt::Reset,
            5 => Gt::Async,
            _ => Gt::Analog(g.width()),
        })
    };
    match op {
        Op::AsUInt | Op::AsSInt | Op::AsClock | Op::AsAsync | Op::AsFixed => kind(g, &[0, 1, 2, 3, 4, 5, 6]),
        Op::Incp | Op::Decp | Op::Setp => kind(g, &[2]),
        Op::Dshl | Op::Dshr if i == 1 => {
            if g.s.chance(3, 4) {
                let w = g.s.range(0, 20) as u16;
                Ty::G(Gt::UInt(Some(w)))
            } else {
                kind(g, &[0, 0, 0, 1])
            }
        }
        _ if i == 1 && g.s.chance(7, 8) => match first {
            Some(Ty::G(Gt::UInt(_))) => kind(g, &[0]),
            Some(Ty::G(Gt::SInt(_))) => kind(g, &[1]),
            Some(Ty::G(Gt::Fixed(..))) => kind(g, &[2]),
            _ => kind(g, &[0, 1, 2]),
        },
        _ => kind(g, &[0, 1, 2]),
    }
}

fn c09(cx: &mut Cx) -> Res {
    let mut claims = 0;
    let (w, e) = match cx.src.weighted(&[6, 2, 3]) {
        0 => {
            // one operation
            let mut g = Gen::new(&mut cx.src, Opts::full(4));
            let op = *g.s.pick(&OPS);
            let a = operand(&mut g, op, 0, None);
            let b = operand(&mut g, op, 1, Some(&a));
            let mut p = g.params(op);
            let wa = match &a {
                Ty::G(g) => oracle::width(*g).map(|w| w as i64),
                _ => None,
            };
            let pa = match &a {
                Ty::G(Gt::Fixed(_, p)) => p.map(|p| p as i64),
                _ => None,
            };
            if !p.is_empty() && g.s.chance(2, 3) {
                // parameters around the limits of the operand
                let d = g.s.range(0, 4) as i64 - 2;
                let base = match (g.s.below(4), wa, pa) {
                    (0, Some(w), _) => w,
                    (1, Some(w), _) => 65535 - w,
                    (2, Some(w), Some(p)) => w - p,
                    (3, _, Some(p)) => {
                        if g.s.coin() {
                            32767 - p
                        } else {
                            p + 32768
                        }
                    }
                    _ => 0,
                };
                p[0] = if op.signed_param() { (base + d).clamp(-32768, 32767) } else { (base + d).clamp(0, 65535) };
                if op == Op::Bits {
                    p[1] = match g.s.below(4) {
                        0 => 0,
                        1 => p[0],
                        2 => (p[0] - d.abs()).max(0),
                        _ => g.s.range(0, p[0] as usize) as i64,
                    };
                }
            }
            let k = op.sig().1;
            let mut args = vec![Ex::Ref(n("a"))];
            if k == 2 {
                args.push(Ex::Ref(n("b")));
            }
            (wire_world(vec![("a", a), ("b", b)]), Ex::Op(op, args, p))
        }
        1 => {
            // mux and selections over aggregates
            let mut g = Gen::new(&mut cx.src, Opts::full(4));
            let a = g.ty(3);
            let b = vary(&mut g, &a);
            let e = match g.s.below(6) {
                0..=2 => Ex::Mux(Box::new(Ex::U(1u8.into(), 1)), Box::new(Ex::Ref(n("a"))), Box::new(Ex::Ref(n("b")))),
                3 => Ex::ValidIf(Box::new(Ex::Ref(n("b"))), Box::new(Ex::Ref(n("a")))),
                4 => {
                    let f = match &a {
                        Ty::B(v) if !v.is_empty() && g.s.chance(3, 4) => g.s.pick(v).name.clone(),
                        _ => g.field_name(&mut HashSet::new()),
                    };
                    Ex::Field(Box::new(Ex::Ref(n("a"))), f)
                }
                _ => {
                    if g.s.coin() {
                        Ex::Index(Box::new(Ex::Ref(n("a"))), g.s.below(65536) as u16)
                    } else {
                        Ex::Access(Box::new(Ex::Ref(n("a"))), Box::new(Ex::U(3u8.into(), 4)))
                    }
                }
            };
            (wire_world(vec![("a", a), ("b", b)]), e)
        }
        _ => {
            let k = cx.src.below(5);
            let w = world(cx, k);
            let mut o = Opts::full(4);
            o.untyped = 30;
            o.depth = 4;
            let e = Gen::new(&mut cx.src, o).value(&w.sc);
            (w, e)
        }
    };
    cx.sample(|| format!("{}\n{}", b_ex(&e, &w.env), w.desc));
    judge(cx, &e, &w, &mut claims)?;
    if claims > 0 {
        cx.nontrivial(&(&e, &w.desc));
    }
    Ok(())
}

// ------------------------------------------------------------------- C10

fn judge_flow(cx: &mut Cx, e: &Ex, w: &World, fields: &mut usize) -> Result<Option<Fw>, crate::engine::Fail> {
    for s in e.subs() {
        if !matches!(e, Ex::Field(..) | Ex::Index(..) | Ex::Access(..)) {
            judge_flow(cx, s, w, fields)?;
        }
    }
    let got = lib_flow(&b_ex(e, &w.env));
    let want = match e {
        Ex::Ref(x) => w.info[x].1,
        Ex::Field(b, f) => {
            *fields += 1;
            let base = judge_flow(cx, b, w, fields)?;
            match lib_type(&b_ex(b, &w.env)) {
                Some(Ty::B(v)) => match v.iter().find(|x| &x.name == f) {
                    Some(x) => base.map(|b| oracle::flip_flow(b, x.flip)),
                    None => {
                        cx.count("missing field");
                        None
                    }
                },
                _ => None,
            }
        }
        Ex::Index(b, _) => judge_flow(cx, b, w, fields)?,
        Ex::Access(b, i) => {
            judge_flow(cx, i, w, fields)?;
            judge_flow(cx, b, w, fields)?
        }
        _ => Some(Fw::Source),
    };
    cx.checks(1);
    cx.count(match want {
        None => "error",
        Some(Fw::Source) => "source",
        Some(Fw::Sink) => "sink",
        Some(Fw::Duplex) => "duplex",
    });
    ensure!(
        got == want,
        format!("{:?}\nin\n{}", e, w.desc),
        "flow of {} is {:?}, but should be {:?}",
        b_ex(e, &w.env),
        got,
        want
    );
    Ok(got)
}

fn c10(cx: &mut Cx) -> Res {
    for (f, src, snk, fl) in [(Flow::Source, true, false, Flow::Sink), (Flow::Sink, false, true, Flow::Source), (Flow::Duplex, true, true, Flow::Duplex)] {
        ensure!(f.is_source() == src && f.is_sink() == snk, "", "{:?}: is_source {}, is_sink {}", f, f.is_source(), f.is_sink());
        ensure!(f + Orientation::Flipped == fl && f + Orientation::Normal == f, "", "{:?} flipped is {:?}", f, f + Orientation::Flipped);
    }
    let k = cx.src.range(1, 5);
    let w = world(cx, k);
    let mut o = Opts::full(4);
    o.untyped = 15;
    o.depth = 3;
    let mut g = Gen::new(&mut cx.src, o);
    let e = if g.s.chance(3, 4) && !w.sc.vars.is_empty() {
        let v = g.s.pick(&w.sc.vars).clone();
        let mut e = g.path(&w.sc, &v, false).0;
        if g.s.chance(1, 10) {
            let f = g.field_name(&mut HashSet::new());
            e = Ex::Field(Box::new(e), f);
        }
        if w.sc.cost(&e) > crate::gen::MAX_COST {
            e = Ex::Ref(v.name);
        }
        e
    } else {
        g.value(&w.sc)
    };
    cx.sample(|| format!("{}\n{}", b_ex(&e, &w.env), w.desc));
    let mut fields = 0;
    judge_flow(cx, &e, &w, &mut fields)?;
    if fields > 0 {
        cx.nontrivial(&(&e, &w.desc));
    }
    // entities themselves
    for (x, e) in &w.env.ents {
        let inner = match e.as_ref() {
            Entity::Port(p) => p.flow(),
            Entity::Register(r) => r.flow(),
            Entity::Memory(m) => m.flow(),
            Entity::SimpleMemPort(p) => p.flow(),
            Entity::Instance(i) => i.flow(),
            _ => e.flow(),
        };
        cx.checks(2);
        ensure!(e.flow().map(l_flow) == w.info[x].1, w.desc.clone(), "flow of entity {:?} is {:?}, but should be {:?}", x, e.flow(), w.info[x].1);
        ensure!(inner.map(l_flow) == w.info[x].1, w.desc.clone(), "flow of {:?} is {:?}, but should be {:?}", x, inner, w.info[x].1);
    }
    Ok(())
}

// --------------------------------------------------------- types, related

fn count_nodes(t: &Ty) -> usize {
    1 + match t {
        Ty::G(_) => 0,
        Ty::V(t, _) => count_nodes(t),
        Ty::B(v) => v.iter().map(|f| count_nodes(&f.ty)).sum(),
    }
}

fn node_mut<'t>(t: &'t mut Ty, k: &mut usize) -> Option<&'t mut Ty> {
    if *k == 0 {
        return Some(t);
    }
    *k -= 1;
    match t {
        Ty::G(_) => None,
        Ty::V(t, _) => node_mut(t, k),
        Ty::B(v) => v.iter_mut().find_map(|f| node_mut(&mut f.ty, k)),
    }
}

fn rewidth(g: &mut Gen, t: &mut Ty) {
    match t {
        Ty::G(x) => {
            if g.s.coin() {
                *x = match *x {
                    Gt::UInt(_) => Gt::UInt(g.width()),
                    Gt::SInt(_) => Gt::SInt(g.width()),
                    Gt::Fixed(..) => Gt::Fixed(g.width(), g.point()),
                    Gt::Analog(_) => Gt::Analog(g.width()),
                    o => o,
                }
            }
        }
        Ty::V(t, _) => rewidth(g, t),
        Ty::B(v) => v.iter_mut().for_each(|f| rewidth(g, &mut f.ty)),
    }
}

/// Flip the outermost fields instead of the one containing them
fn push_flip(t: &mut Ty) -> bool {
    match t {
        Ty::G(_) => false,
        Ty::V(t, _) => push_flip(t),
        Ty::B(v) => {
            v.iter_mut().for_each(|f| f.flip ^= true);
            true
        }
    }
}

/// One structural change
fn change(g: &mut Gen, t: &mut Ty) {
    let mut k = g.s.below(count_nodes(t));
    let x = match node_mut(t, &mut k) {
        Some(x) => x,
        None => return,
    };
    match x {
        Ty::G(x) => {
            *x = match g.s.below(3) {
                0 => match *x {
                    Gt::Reset => Gt::Async,
                    Gt::Async => Gt::Reset,
                    Gt::UInt(w) => Gt::SInt(w),
                    Gt::SInt(w) => Gt::UInt(w),
                    Gt::Clock => Gt::UInt(Some(1)),
                    Gt::Fixed(w, _) => Gt::UInt(w),
                    Gt::Analog(w) => Gt::UInt(w),
                },
                _ => g.ground(),
            }
        }
        Ty::V(b, w) => match g.s.below(3) {
            0 => *w = w.wrapping_add(1),
            1 => *w ^= 256,
            _ => {
                let b = (**b).clone();
                *x = b
            }
        },
        Ty::B(v) => match g.s.below(6) {
            0 if !v.is_empty() => {
                let i = g.s.below(v.len());
                v[i].flip ^= true
            }
            1 if !v.is_empty() => {
                let i = g.s.below(v.len());
                let mut used = v.iter().map(|f| f.name.clone()).collect();
                v[i].name = g.field_name(&mut used)
            }
            2 if v.len() > 1 => {
                let i = g.s.below(v.len() - 1);
                v.swap(i, i + 1)
            }
            3 if !v.is_empty() => {
                v.pop();
            }
            4 if v.len() > 1 => {
                // names exchanged
                let i = g.s.below(v.len() - 1);
                let x = v[i].name.clone();
                v[i].name = v[i + 1].name.clone();
                v[i + 1].name = x;
            }
            _ => {
                let mut used = v.iter().map(|f| f.name.clone()).collect();
                let f = Fl { name: g.field_name(&mut used), flip: g.s.coin(), ty: g.ty(1) };
                v.push(f)
            }
        },
    }
}

/// A type related to the given one
pub fn vary(g: &mut Gen, t: &Ty) -> Ty {
    let mut r = t.clone();
    match g.s.below(8) {
        0 => (),
        1 | 2 => rewidth(g, &mut r),
        3 => change(g, &mut r),
        4 => {
            rewidth(g, &mut r);
            change(g, &mut r)
        }
        5 | 6 => {
            // orientation moved inwards at some field
            let c = count_nodes(&r);
            for _ in 0..12 {
                let mut k = g.s.below(c);
                if let Some(Ty::B(v)) = node_mut(&mut r, &mut k) {
                    if !v.is_empty() {
                        let i = g.s.below(v.len());
                        if push_flip(&mut v[i].ty) {
                            v[i].flip ^= true;
                            break;
                        }
                    }
                }
            }
            if g.s.coin() {
                rewidth(g, &mut r)
            }
            if g.s.chance(1, 4) {
                change(g, &mut r)
            }
        }
        _ => r = g.ty(2),
    }
    r
}

/// A type with many nested bundles
fn rich_ty(g: &mut Gen, d: usize, budget: &mut isize) -> Ty {
    *budget -= 1;
    if d == 0 || *budget <= 0 {
        return Ty::G(g.ground());
    }
    match g.s.weighted(&[2, 2, 5]) {
        0 => Ty::G(g.ground()),
        1 => {
            let t = rich_ty(g, d - 1, budget);
            Ty::V(Box::new(t), g.veclen())
        }
        _ => {
            let k = g.s.range(1, 4);
            let mut used = std::collections::HashSet::new();
            let mut v = vec![];
            for _ in 0..k {
                let name = g.field_name(&mut used);
                let flip = g.s.coin();
                v.push(Fl { name, flip, ty: rich_ty(g, d - 1, budget) })
            }
            Ty::B(v)
        }
    }
}

fn pair(cx: &mut Cx) -> (Ty, Ty) {
    let size = cx.size as isize;
    let mut g = Gen::new(&mut cx.src, Opts::full(4));
    let d = g.s.below(6);
    let a = if g.s.coin() { rich_ty(&mut g, d, &mut (3 * size)) } else { g.ty(d.min(4)) };
    let b = vary(&mut g, &a);
    if g.s.coin() {
        (a, b)
    } else {
        (b, a)
    }
}

fn l_or(t: &OrientedType) -> Or {
    match t {
        OrientedType::GroundType(g, o) => Or::G(l_gt(g), *o == Orientation::Flipped),
        OrientedType::Vector(t, w) => Or::V(Box::new(l_or(t)), *w),
        OrientedType::Bundle(v) => Or::B(v.iter().map(|(n, t)| (n.clone(), l_or(t))).collect()),
    }
}

// ------------------------------------------------------------------- C11

fn c11(cx: &mut Cx) -> Res {
    let (a, b) = pair(cx);
    let desc = format!("{:?}\n{:?}", a, b);
    cx.sample(|| desc.clone());
    if !matches!((&a, &b), (Ty::G(_), Ty::G(_))) {
        cx.nontrivial(&(&a, &b));
    }
    let (x, mut y) = (b_ty(&a), b_ty(&b));
    if cx.src.chance(1, 4) {
        cx.count("sharing storage");
        y = share_ty(&x, &y);
    }
    let (ox, oy) = (OrientedType::from(&x), OrientedType::from(&y));
    let d = || format!("{}\n{}", x, y);
    cx.checks(16);
    let want = oracle::equiv(&a, &b);
    cx.count(if want { "equivalent" } else { "not equivalent" });
    ensure!(TypeExt::eq(&x, &y) == want, d(), "equivalence is {}, but should be {}", !want, want);
    ensure!(TypeExt::eq(&y, &x) == want, d(), "equivalence is not symmetric");
    ensure!(TypeExt::eq(&x, &x) && TypeExt::eq(&y, &y), d(), "equivalence is not reflexive");
    let weak = oracle::weak_equiv(&a, &b);
    cx.count(match (want, weak) {
        (true, true) => "equivalent and weakly so",
        (false, true) => "weakly equivalent only",
        (false, false) => "not even weakly equivalent",
        (true, false) => "impossible",
    });
    ensure!(x.weak_eq(&y) == weak, d(), "weak equivalence is {}, but should be {}", !weak, weak);
    ensure!(y.weak_eq(&x) == weak, d(), "weak equivalence is not symmetric");
    ensure!(TypeExt::eq(&ox, &oy) == weak, d(), "equivalence of oriented types is {}, but should be {}", !weak, weak);
    ensure!(x.weak_eq(&x), d(), "weak equivalence is not reflexive");
    for (t, m, o) in [(&x, &a, &ox), (&y, &b, &oy)] {
        let p = oracle::passive(m);
        cx.count(if p { "passive" } else { "not passive" });
        ensure!(t.is_passive() == p, d(), "{} passive: {}, but should be {}", t, t.is_passive(), p);
        let om = oracle::orient(m, false);
        ensure!(&l_or(o) == &om, d(), "leaf orientations of {} are {:?}, but should be {:?}", t, o, om);
        let op = oracle::or_passive(&om);
        ensure!(o.is_passive() == op, d(), "oriented {:?} passive: {}", o, o.is_passive());
        let fl = t.with_orientation(Orientation::Flipped);
        ensure!(l_or(&fl) == oracle::orient(m, true), d(), "leaf orientations of {} seen flipped are {:?}", t, fl);
        ensure!(l_or(&o.flipped()) == oracle::orient(m, true), d(), "flipping {:?} gives {:?}", o, o.flipped());
        ensure!(l_or(&o.flipped().flipped()) == om, d(), "flipping twice gives {:?}", o.flipped().flipped());
        ensure!(&t.with_orientation(Orientation::Normal) == o, d(), "conversion and normal orientation disagree");
        // accessors
        let g = match m {
            Ty::G(g) => Some(*g),
            _ => None,
        };
        ensure!(t.ground_type().map(|g| l_gt(&g)) == g, d(), "ground type of {} is {:?}", t, t.ground_type());
        ensure!(o.ground_type().map(|g| l_gt(&g)) == g, d(), "ground type of {:?} is {:?}", o, o.ground_type());
        if let Some(g) = g {
            let g = b_gt(g);
            ensure!(g.is_passive() && TypeExt::ground_type(&g) == Some(g), d(), "ground type {} is not passive", g);
            ensure!(*t == g, d(), "{} does not equal its ground type", t);
            for (u, um) in [(&x, &a), (&y, &b)] {
                ensure!((*u == g) == (*um == Ty::G(l_gt(&g))), d(), "{} equals the ground type {}: {}", u, g, *u == g);
            }
        }
        let v = match m {
            Ty::V(b, w) => Some((&**b, *w)),
            _ => None,
        };
        ensure!(t.vector().map(|(b, w)| (l_ty(b), w)) == v.map(|(b, w)| (b.clone(), w)), d(), "vector of {} is {:?}", t, t.vector());
        ensure!(t.vector_base().map(|b| l_ty(b)) == v.map(|(b, _)| b.clone()), d(), "vector base of {} is {:?}", t, t.vector_base());
        if let Ty::B(v) = m {
            for f in v {
                let x = BundleField::new(f.name.clone(), b_ty(&f.ty)).with_orientation(b_or(f.flip));
                let y = x.clone().flipped();
                ensure!(y.orientation() == b_or(!f.flip), d(), "flipping {:?} gives {:?}", x, y);
                ensure!(y.clone().flipped() == x, d(), "flipping {:?} twice gives {:?}", x, y.flipped());
            }
        }
    }
    // ground types, directly
    if let (Ty::G(g), Ty::G(h)) = (&a, &b) {
        let w = oracle::equiv(&a, &b);
        ensure!(TypeExt::eq(&b_gt(*g), &b_gt(*h)) == w, d(), "equivalence of ground types is {}", !w);
    }
    for p in [Orientation::Normal, Orientation::Flipped] {
        for q in [Orientation::Normal, Orientation::Flipped] {
            let w = if p == q { Orientation::Normal } else { Orientation::Flipped };
            ensure!(p + q == w, "", "{:?} + {:?} is {:?}", p, q, p + q);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C12

/// Whether p and q are a and b or at the same place within them
fn corresponds(a: &Ty, b: &Ty, p: &Ty, q: &Ty) -> bool {
    (a == p && b == q)
        || match (a, b) {
            (Ty::V(a, _), Ty::V(b, _)) => corresponds(a, b, p, q),
            (Ty::B(a), Ty::B(b)) => a.iter().zip(b).any(|(a, b)| corresponds(&a.ty, &b.ty, p, q)),
            _ => false,
        }
}

fn c12(cx: &mut Cx) -> Res {
    let (a, b) = pair(cx);
    let desc = format!("{:?}\n{:?}", a, b);
    cx.sample(|| desc.clone());
    if a != b {
        cx.nontrivial(&(&a, &b));
    }
    let (x, y) = (b_ty(&a), b_ty(&b));
    let z = share_ty(&x, &y);
    let d = || format!("{}\n{}", x, y);
    let mw = MaxWidth::new();
    let r: Result<Type, (&Type, &Type)> = mw.combine(&x, &y);
    let rev: Result<Type, (&Type, &Type)> = mw.combine(&y, &x);
    // whether the operands share storage must not matter
    for (p, q, w) in [(&x, &z, &r), (&z, &x, &rev)] {
        let r: Result<Type, (&Type, &Type)> = mw.combine(p, q);
        ensure!(r == *w, d(), "combining operands which share storage gives {:?}, otherwise it is {:?}", r, w);
    }
    let want = oracle::combine(&a, &b);
    cx.checks(6);
    cx.count(if want.is_some() { "combinable" } else { "not combinable" });
    match (&r, &want) {
        (Ok(t), None) => return fail(format!("combination yields {} for types which are not equivalent", t), d()),
        (Err(_), Some(t)) => return fail(format!("combination of equivalent types fails, should be {:?}", t), d()),
        (Err((p, q)), None) => {
            let (p, q) = (l_ty(p), l_ty(q));
            cx.count("pairs responsible for the failure");
            ensure!(
                corresponds(&a, &b, &p, &q),
                d(),
                "the failure is blamed on {:?} and {:?}, which are no corresponding parts of the operands",
                p,
                q
            );
            ensure!(
                oracle::combine(&p, &q).is_none(),
                d(),
                "the failure is blamed on {:?} and {:?}, which are compatible",
                p,
                q
            );
        }
        (Ok(t), Some(m)) => {
            ensure!(Exp::Loose(m.clone()).admits(Some(&l_ty(t))), d(), "combination is {}, but should be {:?}", t, m);
            ensure!(TypeExt::eq(t, &x) && TypeExt::eq(t, &y), d(), "combination {} is not equivalent to the operands", t);
        }
    }
    match (&r, &rev) {
        (Ok(p), Ok(q)) => ensure!(p == q, d(), "combination depends on the order: {} or {}", p, q),
        (Err(_), Err(_)) => (),
        _ => return fail("success of the combination depends on the order", d()),
    }
    for (m, t) in [(&a, &x), (&b, &y)] {
        if oracle::widths_known(m) {
            cx.count("combined with itself");
            let s: Result<Type, _> = mw.combine(t, t);
            match s {
                Ok(s) => ensure!(&s == t, d(), "{} combined with itself is {}", t, s),
                Err(_) => return fail(format!("{} cannot be combined with itself", t), d()),
            }
        }
    }
    // ground types and fields on their own
    if let (Ty::G(g), Ty::G(h)) = (&a, &b) {
        let (p, q) = (b_gt(*g), b_gt(*h));
        let r: Result<GroundType, _> = mw.combine(&p, &q);
        if let Err((x, y)) = r {
            ensure!(*x == p && *y == q, d(), "the failure is blamed on {} and {}", x, y);
        }
        let r = r.ok().map(|g| Ty::G(l_gt(&g)));
        let ok = match (&r, &want) {
            (None, None) => true,
            (Some(r), Some(w)) => Exp::Loose(w.clone()).admits(Some(r)),
            _ => false,
        };
        ensure!(ok, d(), "combination of ground types is {:?}, but should be {:?}", r, want);
    }
    let (fa, fb) = (cx.src.coin(), cx.src.coin());
    let nb = if cx.src.chance(1, 5) { "g" } else { "f" };
    let p = BundleField::new("f", x.clone()).with_orientation(b_or(fa));
    let q = BundleField::new(nb, y.clone()).with_orientation(b_or(fb));
    let r: Result<BundleField, _> = mw.combine(&p, &q);
    if let Err((x, y)) = r {
        ensure!(*x == p && *y == q, d(), "the failure is blamed on {} and {}", x, y);
    }
    let w = if fa == fb && nb == "f" { want.clone() } else { None };
    let r = r.ok().map(|f| crate::conv::l_field(&f));
    let ok = match (&r, &w) {
        (None, None) => true,
        (Some(r), Some(w)) => &*r.name == "f" && r.flip == fa && Exp::Loose(w.clone()).admits(Some(&r.ty)),
        _ => false,
    };
    ensure!(ok, d(), "combination of fields {:?} and {:?} is {:?}", p, q, r);
    // other width functions
    let which = cx.src.below(3);
    let f = move |l: u16, r: u16| match which {
        0 => l.checked_add(r),
        1 => Some(l.min(r)),
        _ => l.checked_sub(r),
    };
    let lift = |l: Option<u16>, r: Option<u16>| match (l, r) {
        (Some(l), Some(r)) => f(l, r),
        _ => None,
    };
    let fw = FnWidth::from(f);
    let r: Result<Type, _> = fw.combine(&x, &y);
    let w = oracle::combine_with(&a, &b, &|l, r| match (l, r) {
        (Gt::UInt(l), Gt::UInt(r)) => Some(Gt::UInt(lift(l, r))),
        (Gt::SInt(l), Gt::SInt(r)) => Some(Gt::SInt(lift(l, r))),
        (Gt::Analog(l), Gt::Analog(r)) => Some(Gt::Analog(lift(l, r))),
        (Gt::Fixed(..), _) => None,
        (l, r) if l == r => Some(l),
        _ => None,
    });
    let r = r.ok().map(|t| l_ty(&t));
    ensure!(r == w, d(), "combination by width function {} is {:?}, but should be {:?}", which, r, w);
    let mut g = Gen::new(&mut cx.src, Opts::full(4));
    let (l, r) = (g.width(), g.width());
    let (lp, rp) = (g.point(), g.point());
    ensure!(fw.combine_widths(l, r) == lift(l, r), "", "widths {:?} and {:?} combined by function {}: {:?}", l, r, which, fw.combine_widths(l, r));
    ensure!(fw.combine(&l, &r).ok() == Some(lift(l, r)), "", "widths {:?} and {:?} combined by function {}", l, r, which);
    let m = match (l, r) {
        (Some(l), Some(r)) => Some(l.max(r)),
        _ => None,
    };
    ensure!(MaxWidth::combine_widths(l, r) == m, "", "maximum of {:?} and {:?} is {:?}", l, r, MaxWidth::combine_widths(l, r));
    if let (Some(l), Some(r), Some(lp), Some(rp)) = (l, r, lp, rp) {
        let (a, b, p, q) = (l as i64, r as i64, lp as i64, rp as i64);
        let w = (a - p).max(b - q) + p.max(q);
        let w = if w <= 65535 { Some(w as u16) } else { None };
        let got = combine_fixed_max((l, lp), (r, rp));
        cx.count("fixed point maxima");
        ensure!(got == w, "", "combine_fixed_max(({}, {}), ({}, {})) is {:?}, but should be {:?}", l, lp, r, rp, got, w);
    }
    Ok(())
}

// ------------------------------------------------------------------- C13

fn c13(cx: &mut Cx) -> Res {
    let mut interesting = false;
    let k = cx.src.range(1, 6);
    let w = world(cx, k);
    cx.sample(|| w.desc.clone());
    for (x, e) in &w.env.ents {
        let want = w.info[x].0.clone();
        let got = e.r#type().ok().map(|t| l_ty(&t));
        cx.checks(2);
        ensure!(got == want, w.desc.clone(), "type of entity {:?} is {:?}, but should be {:?}", x, got, want);
        let inner = match e.as_ref() {
            Entity::Port(p) => Some(l_ty(p.r#type())),
            Entity::Register(r) => r.r#type().ok().map(|t| l_ty(&t)),
            Entity::Memory(m) => {
                interesting |= m.ports().count() > 0;
                m.r#type().ok().map(|t| l_ty(&t))
            }
            Entity::SimpleMemPort(p) => p.r#type().ok().map(|t| l_ty(&t)),
            Entity::Instance(i) => {
                interesting |= i.module().ports().count() > 0;
                i.r#type().ok().map(|t| l_ty(&t))
            }
            Entity::Wire { r#type, .. } => Some(l_ty(r#type)),
            Entity::Node { value, .. } => value.r#type().ok().map(|t| l_ty(&t)),
        };
        cx.count(match e.as_ref() {
            Entity::Port(_) => "ports",
            Entity::Register(_) => "registers",
            Entity::Memory(_) => "memories",
            Entity::SimpleMemPort(_) => "memory ports",
            Entity::Instance(_) => "instances",
            Entity::Wire { .. } => "wires",
            Entity::Node { .. } => "nodes",
        });
        interesting |= matches!(e.as_ref(), Entity::Register(_) | Entity::SimpleMemPort(_) | Entity::Node { .. });
        ensure!(inner == want, w.desc.clone(), "type of {:?} is {:?}, but should be {:?}", x, inner, want);
    }
    for m in w.env.mems.values() {
        let want = &w.sc.smems.iter().find(|x| &x.0 == m.name()).unwrap().1;
        cx.checks(1);
        ensure!(m.r#type().ok().map(|t| l_ty(&t)).as_ref() == Some(want), w.desc.clone(), "type of memory {:?}", m.name());
    }
    // address widths
    let mut g = Gen::new(&mut cx.src, Opts::full(4));
    let x = g.u64ish();
    let y = (g.u64ish() as u128) << g.s.below(65) | g.s.below(4) as u128;
    for v in [x as u128, y] {
        let want = (0..128u32).find(|w| (1u128 << w) >= v).unwrap_or(128) as u16;
        cx.checks(1);
        ensure!(required_address_width(v) == want, "", "address width for {} is {}, but should be {}", v, required_address_width(v), want);
    }
    // one more memory with a depth at a power of two
    let mut g = Gen::new(&mut cx.src, Opts::full(4));
    let mut m = g.mem(n("m"));
    // names of ports may be repeated
    if g.s.chance(1, 4) && !m.ports.is_empty() {
        let i = g.s.below(m.ports.len());
        let p = m.ports[i].clone();
        let j = g.s.below(m.ports.len() + 1);
        m.ports.insert(j, p);
    }
    let got = b_mem(&m).r#type().ok().map(|t| l_ty(&t));
    let want = oracle::mem_ty(&m);
    ensure!(got.as_ref() == Some(&want), format!("{:?}", m), "type of the memory is {:?}, but should be {:?}", got, want);
    interesting |= !m.ports.is_empty();
    cx.checks(1);
    let mut g = Gen::new(&mut cx.src, Opts::full(4));
    // an instance of a module of its own, in which names may be repeated
    let mut ports = g.ports(&mut Default::default(), &mut Default::default());
    for _ in 0..g.s.below(3) {
        if !ports.is_empty() {
            let i = g.s.below(ports.len());
            let mut p = ports[i].clone();
            if g.s.coin() {
                p.input = g.s.coin();
            }
            if g.s.chance(1, 3) {
                p.ty = g.ty(1);
            }
            let j = g.s.below(ports.len() + 1);
            ports.insert(j, p);
        }
    }
    let want = oracle::inst_ty(&ports);
    let detail = format!("{:?}", ports);
    let module = b_module(&Module { name: n("l"), info: None, ports, kind: Mk::Reg(vec![]) }, &Default::default());
    let got = Instance::new("i", module).r#type().ok().map(|t| l_ty(&t));
    cx.checks(1);
    ensure!(got.as_ref() == Some(&want), detail, "type of the instance is {:?}, but should be {:?}", got, want);
    if interesting {
        cx.nontrivial(&(&w.desc, &m));
    }
    Ok(())
}

#[allow(unused)]
fn unused(_: common::PortDir, _: mem::Port, _: Direction, _: APort) {
    let _ = b_pdir;
}

// ------------------------------------------------------------------- C25

/// References as a user of the library may define them
#[derive(Clone, Debug, PartialEq)]
struct Own {
    name: String,
    ty: Option<Type>,
    flow: Option<Flow>,
}

impl Named for Own {
    type Name = String;
    fn name(&self) -> &String {
        &self.name
    }
}

impl Reference for Own {
    fn flow(&self) -> Option<Flow> {
        self.flow
    }
}

impl Typed for Own {
    type Err = ();
    type Type = Type;
    fn r#type(&self) -> Result<Type, ()> {
        self.ty.clone().ok_or(())
    }
}

/// References which always have a ground type
#[derive(Clone, Debug, PartialEq)]
struct Signal {
    name: N,
    ty: firrtl_ast::types::GroundType,
    flow: Flow,
}

impl Named for Signal {
    type Name = N;
    fn name(&self) -> &N {
        &self.name
    }
}

impl Reference for Signal {
    fn flow(&self) -> Option<Flow> {
        Some(self.flow)
    }
}

impl Typed for Signal {
    type Err = std::convert::Infallible;
    type Type = firrtl_ast::types::GroundType;
    fn r#type(&self) -> Result<Self::Type, Self::Err> {
        Ok(self.ty)
    }
}

/// The same expression over other references
fn over<R: Reference>(e: &AEx, f: &dyn Fn(&Arc<Entity>) -> R) -> Expression<R> {
    use firrtl_ast::expr::primitive::Operation as O;
    let o = |e: &Arc<AEx>| Arc::new(over(e, f));
    macro_rules! ops {
        ($op:expr; $($two:ident)*; $($one:ident)*; $($par:ident)*) => {
            match $op {
                $(O::$two(a, b) => O::$two(o(a), o(b)),)*
                $(O::$one(a) => O::$one(o(a)),)*
                $(O::$par(a, n) => O::$par(o(a), *n),)*
                O::Bits(a, l, h) => O::Bits(o(a), *l, *h),
            }
        };
    }
    match e {
        Expression::UIntLiteral { value, width } => Expression::UIntLiteral { value: value.clone(), width: *width },
        Expression::SIntLiteral { value, width } => Expression::SIntLiteral { value: value.clone(), width: *width },
        Expression::Reference(r) => Expression::Reference(f(r)),
        Expression::SubField { base, index } => Expression::SubField { base: o(base), index: index.clone() },
        Expression::SubIndex { base, index } => Expression::SubIndex { base: o(base), index: *index },
        Expression::SubAccess { base, index } => Expression::SubAccess { base: o(base), index: o(index) },
        Expression::Mux { sel, a, b } => Expression::Mux { sel: o(sel), a: o(a), b: o(b) },
        Expression::ValidIf { sel, value } => Expression::ValidIf { sel: o(sel), value: o(value) },
        Expression::PrimitiveOp(op) => Expression::PrimitiveOp(ops!(op;
            Add Sub Mul Div Rem Lt LEq Gt GEq Eq NEq DShl DShr And Or Xor Cat;
            Cvt Neg Not AndReduce OrReduce XorReduce;
            Pad Cast Shl Shr IncPrecision DecPrecision SetPrecision)),
    }
}

type Judged = (Option<Ty>, Option<Fw>);

/// Type and flow of an expression and everything in it against the rules
fn judge_own(e: &Ex, x: &AEx, f: &dyn Fn(&Arc<Entity>) -> Own, of: &dyn Fn(&N) -> Judged, desc: &str, n: &mut u64) -> Result<Judged, crate::engine::Fail> {
    let xs: Vec<Arc<AEx>> = match x {
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => vec![base.clone()],
        Expression::SubAccess { base, index } => vec![base.clone(), index.clone()],
        Expression::Mux { sel, a, b } => vec![sel.clone(), a.clone(), b.clone()],
        Expression::ValidIf { sel, value } => vec![sel.clone(), value.clone()],
        Expression::PrimitiveOp(op) => op.sub_exprs().into_iter().cloned().collect(),
        _ => vec![],
    };
    let mut subs = vec![];
    for (s, y) in e.subs().into_iter().zip(&xs) {
        subs.push(judge_own(s, y, f, of, desc, n)?);
    }
    let own = over(x, f);
    let got: Judged = (own.r#type().ok().map(|t| l_ty(&t)), own.flow().ok().map(l_flow));
    let tys: Vec<Option<Ty>> = subs.iter().map(|s| s.0.clone()).collect();
    let want = match e {
        Ex::Ref(r) => of(r).0.map(Exp::T).unwrap_or(Exp::Err),
        _ => oracle::node(e, &tys, |r| of(r).0),
    };
    *n += 2;
    ensure!(want.admits(got.0.as_ref()), desc, "type of {} is {:?}, but should be {:?}", own, got.0, want);
    let flow = match e {
        Ex::Ref(r) => of(r).1,
        Ex::Field(_, f) => match &tys[0] {
            Some(Ty::B(v)) => v.iter().find(|x| &x.name == f).and_then(|x| subs[0].1.map(|b| oracle::flip_flow(b, x.flip))),
            _ => None,
        },
        Ex::Index(..) | Ex::Access(..) => subs[0].1,
        _ => Some(Fw::Source),
    };
    ensure!(got.1 == flow, desc, "flow of {} is {:?}, but should be {:?}", own, got.1, flow);
    Ok(got)
}

fn c25(cx: &mut Cx) -> Res {
    let k = cx.src.range(1, 4);
    let w = world(cx, k);
    let mut o = Opts::full(4);
    o.untyped = 15;
    o.depth = 3;
    let mut g = Gen::new(&mut cx.src, o);
    let e = if g.s.coin() && !w.sc.vars.is_empty() {
        let v = g.s.pick(&w.sc.vars).clone();
        let e = g.path(&w.sc, &v, false).0;
        if w.sc.cost(&e) > crate::gen::MAX_COST {
            Ex::Ref(v.name)
        } else {
            e
        }
    } else {
        g.value(&w.sc)
    };
    let x = b_ex(&e, &w.env);
    let mut refs = vec![];
    e.refs(&mut refs);
    // references like the entities: everything must be the same
    let mirror = |r: &Arc<Entity>| Own { name: r.name().to_string(), ty: r.r#type().ok(), flow: r.flow() };
    let m = over(&x, &mirror);
    let desc = format!("{:?}\nin\n{}", e, w.desc);
    ensure!(m.to_string() == x.to_string(), desc, "printed as {} over entities, as {} over other references", x, m);
    let (t1, t2) = (lib_type(&x), m.r#type().ok().map(|t| l_ty(&t)));
    ensure!(t1 == t2, desc, "type of {} is {:?} over entities, {:?} over other references", x, t1, t2);
    let (f1, f2) = (lib_flow(&x), m.flow().ok().map(l_flow));
    ensure!(f1 == f2, desc, "flow of {} is {:?} over entities, {:?} over other references", x, f1, f2);
    let mut names: Vec<N> = m.references().map(|r| n(r.name())).collect();
    names.sort();
    refs.sort();
    ensure!(names == refs, desc, "references reported: {:?} instead of {:?}", names, refs);
    ensure!(m.clone() == m, desc, "a copy differs");
    // references of any type and flow
    let mut own: HashMap<N, Own> = HashMap::new();
    for r in &refs {
        if !own.contains_key(r) {
            let ty = if g.s.coin() { w.info[r].0.as_ref().map(b_ty) } else { Some(b_ty(&g.ty(2))) };
            let ty = if g.s.chance(1, 12) { None } else { ty };
            let flow = *g.s.pick(&[None, Some(Flow::Source), Some(Flow::Sink), Some(Flow::Duplex)]);
            own.insert(r.clone(), Own { name: r.to_string(), ty, flow });
        }
    }
    let f = |r: &Arc<Entity>| own[r.name()].clone();
    let of = |r: &N| (own[r].ty.as_ref().map(l_ty), own[r].flow.map(l_flow));
    let desc = format!("{:?}\nin\n{:#?}", e, own);
    let mut checks = 6;
    judge_own(&e, &x, &f, &of, &desc, &mut checks)?;
    // references of ground types only
    let ground: HashMap<N, (Gt, Flow)> = own.keys().map(|r| (r.clone(), (g.ground(), *g.s.pick(&[Flow::Source, Flow::Sink, Flow::Duplex])))).collect();
    let sig = |r: &Arc<Entity>| Signal { name: r.name().clone(), ty: b_gt(ground[r.name()].0), flow: ground[r.name()].1 };
    let same = |r: &Arc<Entity>| Own { name: r.name().to_string(), ty: Some(Type::from(b_gt(ground[r.name()].0))), flow: Some(ground[r.name()].1) };
    let (a, b) = (over(&x, &sig), over(&x, &same));
    let desc = format!("{:?}\nin\n{:#?}", e, ground);
    let (t1, t2) = (a.r#type().ok().map(|t| l_ty(&t)), b.r#type().ok().map(|t| l_ty(&t)));
    ensure!(t1 == t2, desc, "type of {} is {:?} over references of ground types, {:?} over references of the same types", a, t1, t2);
    let (f1, f2) = (a.flow().ok().map(l_flow), b.flow().ok().map(l_flow));
    ensure!(f1 == f2, desc, "flow of {} is {:?} over references of ground types, {:?} over references of the same types", a, f1, f2);
    ensure!(a.to_string() == x.to_string(), desc, "printed as {} over entities, as {} over other references", x, a);
    // registers and memory ports over such references
    let ty = b_ty(&g.ty(2));
    let mut name = |d: &str| match g.s.below(3) {
        0 if !refs.is_empty() => g.s.pick(&refs).to_string(),
        1 => g.name().to_string(),
        _ => d.to_string(),
    };
    let (rn, pn, mn) = (name("r"), name("p"), name("m"));
    let mut part = || match g.s.below(3) {
        0 if !refs.is_empty() => b_ex(&Ex::Ref(g.s.pick(&refs).clone()), &w.env),
        1 => b_ex(&g.lit_u(), &w.env),
        _ => x.clone(),
    };
    let (x1, x2, x3) = (part(), part(), part());
    let (m1, m2, m3) = (over(&x1, &mirror), over(&x2, &mirror), over(&x3, &mirror));
    let reset = g.s.chance(3, 4);
    let reg = Register::new(&*rn, ty.clone(), m1.clone()).with_optional_reset(if reset { Some((m2.clone(), m3.clone())) } else { None });
    ensure!(*reg.clock() == m1 && reg.reset_signal() == Some(&m2).filter(|_| reset) && reg.reset_value() == Some(&m3).filter(|_| reset), desc, "a register does not keep its expressions");
    ensure!(reg.r#type().ok().as_ref() == Some(&ty) && reg.flow() == Some(Flow::Duplex), desc, "type or flow of a register is wrong");
    let reg2 = Register::new(&*rn, ty.clone(), x1.clone()).with_optional_reset(if reset { Some((x2.clone(), x3.clone())) } else { None });
    let text = format!("reg {}: {}, {}{}", rn, ty, m1, if reset { format!(" with: (reset => ({}, {}))", m2, m3) } else { String::new() });
    let tokens = |s: &str| s.split_whitespace().collect::<String>();
    ensure!(reg.to_string() == reg2.to_string(), desc, "register printed as {} over entities, as {} over other references", reg2, reg);
    ensure!(tokens(&reg.to_string()) == tokens(&text), desc, "register printed as {} instead of {}", reg, text);
    let dir = *g.s.pick(&[None, Some(common::PortDir::Read), Some(common::PortDir::Write), Some(common::PortDir::ReadWrite)]);
    let mem = Arc::new(simple::Memory::new(&*mn, Type::Vector(Arc::new(ty.clone()), 4), simple::Kind::Combinatory));
    let p = simple::Port::new(&*pn, mem.clone(), dir, m1.clone(), m2.clone());
    let p2 = simple::Port::new(&*pn, mem.clone(), dir, x1.clone(), x2.clone());
    ensure!(*p.address() == m1 && *p.clock() == m2 && p.direction() == dir && Arc::ptr_eq(p.memory(), &mem), desc, "a memory port does not keep its properties");
    ensure!(p.r#type().ok() == p2.r#type().ok() && p.flow() == p2.flow(), desc, "type or flow of a memory port depends on the kind of references");
    ensure!(p.r#type().ok().as_ref() == Some(&ty), desc, "type of a memory port is {:?}", p.r#type().ok());
    let word = match dir {
        None => "infer",
        Some(common::PortDir::Read) => "read",
        Some(common::PortDir::Write) => "write",
        Some(common::PortDir::ReadWrite) => "rdwr",
    };
    let text = format!("{} mport {} = {}[{}], {}", word, pn, mn, m1, m2);
    ensure!(p.to_string() == p2.to_string(), desc, "memory port printed as {} over entities, as {} over other references", p2, p);
    // the comma in front of the clock is optional
    let tokens = |s: &str| s.split_whitespace().collect::<String>().replace("],", "]");
    ensure!(tokens(&p.to_string()) == tokens(&text), desc, "memory port printed as {} instead of {}", p, text);
    cx.checks(checks + 12);
    if !refs.is_empty() && !matches!(e, Ex::Ref(_)) {
        cx.nontrivial(&(&e, &desc));
    }
    cx.sample(|| format!("{}\n{}", x, desc));
    Ok(())
}
