//! Independent statement of FIRRTL's typing, flow and equivalence rules,
//! computed over unbounded integers.

use crate::model::*;

pub const U1: Ty = Ty::G(Gt::UInt(Some(1)));

/// What is demanded of a type computed by the library
#[derive(Clone, Debug)]
pub enum Exp {
    /// nothing is claimed
    Any,
    /// must be an error
    Err,
    /// exactly this type
    T(Ty),
    /// this type; a fixed point leaf of unknown width may also lack its point
    Loose(Ty),
    /// this type or the same one with its width unknown
    MaybeUnknown(Ty),
    /// this type or an error
    OrErr(Ty),
}

fn loose_eq(e: &Ty, g: &Ty) -> bool {
    match (e, g) {
        (Ty::G(Gt::Fixed(None, Some(_))), Ty::G(Gt::Fixed(None, None))) => true,
        (Ty::G(a), Ty::G(b)) => a == b,
        (Ty::V(a, n), Ty::V(b, m)) => n == m && loose_eq(a, b),
        (Ty::B(a), Ty::B(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| x.name == y.name && x.flip == y.flip && loose_eq(&x.ty, &y.ty))
        }
        _ => false,
    }
}

pub fn unknown_width(t: &Ty) -> Ty {
    match t {
        Ty::G(Gt::UInt(_)) => Ty::G(Gt::UInt(None)),
        Ty::G(Gt::SInt(_)) => Ty::G(Gt::SInt(None)),
        Ty::G(Gt::Fixed(_, p)) => Ty::G(Gt::Fixed(None, *p)),
        Ty::G(Gt::Analog(_)) => Ty::G(Gt::Analog(None)),
        o => o.clone(),
    }
}

impl Exp {
    /// `None`: the library reported an error
    pub fn admits(&self, got: Option<&Ty>) -> bool {
        match (self, got) {
            (Exp::Any, _) => true,
            (Exp::Err, g) => g.is_none(),
            (Exp::T(t), Some(g)) => t == g,
            (Exp::Loose(t), Some(g)) => loose_eq(t, g),
            (Exp::MaybeUnknown(t), Some(g)) => t == g || &unknown_width(t) == g,
            (Exp::OrErr(t), Some(g)) => t == g,
            (Exp::OrErr(_), None) => true,
            _ => false,
        }
    }
    pub fn preferred(self) -> Option<Ty> {
        match self {
            Exp::Any | Exp::Err => None,
            Exp::T(t) | Exp::Loose(t) | Exp::MaybeUnknown(t) | Exp::OrErr(t) => Some(t),
        }
    }
}

fn w16(v: i64) -> Option<u16> {
    if (0..=65535).contains(&v) {
        Some(v as u16)
    } else {
        None
    }
}
fn p16(v: i64) -> Option<i16> {
    if (-32768..=32767).contains(&v) {
        Some(v as i16)
    } else {
        None
    }
}
fn lift2(a: Option<u16>, b: Option<u16>, f: impl Fn(i64, i64) -> i64) -> Option<u16> {
    match (a, b) {
        (Some(a), Some(b)) => w16(f(a as i64, b as i64)),
        _ => None,
    }
}
fn lift1(a: Option<u16>, f: impl Fn(i64) -> i64) -> Option<u16> {
    a.and_then(|a| w16(f(a as i64)))
}

pub fn width(g: Gt) -> Option<u16> {
    match g {
        Gt::UInt(w) | Gt::SInt(w) | Gt::Fixed(w, _) | Gt::Analog(w) => w,
        Gt::Clock | Gt::Reset | Gt::Async => Some(1),
    }
}

/// Width and point of the least fixed point type covering both, plus `extra`
fn fixed_max(l: (Option<u16>, Option<i16>), r: (Option<u16>, Option<i16>), extra: i64) -> (Gt, bool) {
    let pt = match (l.1, r.1) {
        (Some(a), Some(b)) => Some(a.max(b)),
        _ => None,
    };
    match (l, r) {
        ((Some(lw), Some(lp)), (Some(rw), Some(rp))) => {
            let (lw, lp, rw, rp) = (lw as i64, lp as i64, rw as i64, rp as i64);
            (Gt::Fixed(w16((lw - lp).max(rw - rp) + lp.max(rp) + extra), pt), true)
        }
        _ => (Gt::Fixed(None, pt), false),
    }
}

/// The type of a primitive operation over operands of the given types
pub fn prim(op: Op, args: &[Ty], p: &[i64]) -> Exp {
    use Gt::*;
    let g: Vec<Option<Gt>> = args.iter().map(|t| if let Ty::G(g) = t { Some(*g) } else { None }).collect();
    let one = |x: Gt| Exp::T(Ty::G(x));
    let kind = |t: &Ty| match t {
        Ty::G(UInt(_)) => 0,
        Ty::G(SInt(_)) => 1,
        Ty::G(Fixed(..)) => 2,
        Ty::G(Clock) => 3,
        Ty::G(Reset) => 4,
        Ty::G(Async) => 5,
        Ty::G(Analog(_)) => 6,
        Ty::V(..) => 7,
        Ty::B(_) => 8,
    };
    match op {
        Op::Add | Op::Sub => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(b))) => one(UInt(lift2(a, b, |a, b| a.max(b) + 1))),
            (Some(SInt(a)), Some(SInt(b))) => one(SInt(lift2(a, b, |a, b| a.max(b) + 1))),
            (Some(Fixed(a, x)), Some(Fixed(b, y))) => {
                let (t, exact) = fixed_max((a, x), (b, y), 1);
                if exact {
                    one(t)
                } else {
                    Exp::Loose(Ty::G(t))
                }
            }
            _ if kind(&args[0]) != kind(&args[1]) => Exp::Err,
            _ => Exp::Any,
        },
        Op::Mul => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(b))) => one(UInt(lift2(a, b, |a, b| a + b))),
            (Some(SInt(a)), Some(SInt(b))) => one(SInt(lift2(a, b, |a, b| a + b))),
            (Some(Fixed(a, x)), Some(Fixed(b, y))) => {
                let pt = match (x, y) {
                    (Some(x), Some(y)) => p16(x as i64 + y as i64),
                    _ => None,
                };
                one(Fixed(lift2(a, b, |a, b| a + b), pt))
            }
            _ if kind(&args[0]) != kind(&args[1]) => Exp::Err,
            _ => Exp::Any,
        },
        Op::Div => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(_))) => one(UInt(a)),
            (Some(SInt(a)), Some(SInt(_))) => one(SInt(lift1(a, |a| a + 1))),
            _ => Exp::Any,
        },
        Op::Rem => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(b))) => one(UInt(lift2(a, b, |a, b| a.min(b)))),
            (Some(SInt(a)), Some(SInt(b))) => one(SInt(lift2(a, b, |a, b| a.min(b)))),
            _ => Exp::Any,
        },
        Op::Lt | Op::Leq | Op::Gt | Op::Geq | Op::Eq | Op::Neq => {
            if kind(&args[0]) == kind(&args[1]) && kind(&args[0]) < 3 {
                Exp::T(U1)
            } else {
                Exp::Any
            }
        }
        Op::Pad => match g[0] {
            Some(UInt(a)) => one(UInt(lift1(a, |a| a.max(p[0])))),
            Some(SInt(a)) => one(SInt(lift1(a, |a| a.max(p[0])))),
            Some(Fixed(a, x)) => one(Fixed(lift1(a, |a| a.max(p[0])), x)),
            _ => Exp::Any,
        },
        Op::AsUInt | Op::AsSInt | Op::AsFixed | Op::AsClock | Op::AsAsync => match g[0] {
            None | Some(Analog(_)) => Exp::Any,
            Some(x) => one(match op {
                Op::AsUInt => UInt(width(x)),
                Op::AsSInt => SInt(width(x)),
                Op::AsFixed => Fixed(width(x), p16(p[0])),
                Op::AsClock => Clock,
                _ => Async,
            }),
        },
        Op::Shl => match g[0] {
            Some(UInt(a)) => one(UInt(lift1(a, |a| a + p[0]))),
            Some(SInt(a)) => one(SInt(lift1(a, |a| a + p[0]))),
            Some(Fixed(a, x)) => one(Fixed(lift1(a, |a| a + p[0]), x)),
            _ => Exp::Any,
        },
        Op::Shr => match g[0] {
            Some(UInt(a)) => one(UInt(lift1(a, |a| (a - p[0]).max(1)))),
            Some(SInt(a)) => one(SInt(lift1(a, |a| (a - p[0]).max(1)))),
            Some(Fixed(Some(a), Some(x))) => {
                one(Fixed(w16((a as i64 - p[0]).max((x as i64).max(1))), Some(x)))
            }
            Some(Fixed(_, x)) => Exp::Loose(Ty::G(Fixed(None, x))),
            _ => Exp::Any,
        },
        Op::Dshl => match (g[0], g[1]) {
            (Some(x @ (UInt(_) | SInt(_) | Fixed(..))), Some(UInt(b))) => {
                let (w, near) = match (width(x), b) {
                    (Some(a), Some(b)) if b < 32 => {
                        let r = a as i64 + (1i64 << b) - 1;
                        (w16(r), r >= 65535)
                    }
                    _ => (None, false),
                };
                let t = Ty::G(match x {
                    UInt(_) => UInt(w),
                    SInt(_) => SInt(w),
                    Fixed(_, p) => Fixed(w, p),
                    _ => unreachable!(),
                });
                if near {
                    Exp::MaybeUnknown(t)
                } else {
                    Exp::T(t)
                }
            }
            _ => Exp::Any,
        },
        Op::Dshr => match (g[0], g[1]) {
            (Some(x @ (UInt(_) | SInt(_) | Fixed(..))), Some(UInt(_))) => one(x),
            _ => Exp::Any,
        },
        Op::Cvt => match g[0] {
            Some(UInt(a)) => one(SInt(lift1(a, |a| a + 1))),
            Some(SInt(a)) => one(SInt(a)),
            _ => Exp::Any,
        },
        Op::Neg => match g[0] {
            Some(UInt(a)) | Some(SInt(a)) => one(SInt(lift1(a, |a| a + 1))),
            _ => Exp::Any,
        },
        Op::Not => match g[0] {
            Some(UInt(a)) | Some(SInt(a)) => one(UInt(a)),
            _ => Exp::Any,
        },
        Op::And | Op::Or | Op::Xor => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(b))) | (Some(SInt(a)), Some(SInt(b))) => {
                one(UInt(lift2(a, b, |a, b| a.max(b))))
            }
            _ => Exp::Any,
        },
        Op::Andr | Op::Orr | Op::Xorr => match g[0] {
            Some(UInt(_)) | Some(SInt(_)) => Exp::T(U1),
            _ => Exp::Any,
        },
        Op::Cat => match (g[0], g[1]) {
            (Some(UInt(a)), Some(UInt(b))) | (Some(SInt(a)), Some(SInt(b))) | (Some(Fixed(a, _)), Some(Fixed(b, _))) => {
                one(UInt(lift2(a, b, |a, b| a + b)))
            }
            _ => Exp::Any,
        },
        Op::Bits => match g[0] {
            Some(x @ (UInt(_) | SInt(_) | Fixed(..))) => {
                let (hi, lo) = (p[0], p[1]);
                if hi < lo || width(x).map(|w| hi >= w as i64).unwrap_or(false) {
                    Exp::Any
                } else {
                    one(UInt(w16(hi - lo + 1)))
                }
            }
            _ => Exp::Any,
        },
        Op::Head => match g[0] {
            Some(x @ (UInt(_) | SInt(_) | Fixed(..))) => {
                if width(x).map(|w| p[0] > w as i64).unwrap_or(false) {
                    Exp::Any
                } else {
                    one(UInt(w16(p[0])))
                }
            }
            _ => Exp::Any,
        },
        Op::Tail => match g[0] {
            Some(x @ (UInt(_) | SInt(_) | Fixed(..))) => {
                if width(x).map(|w| p[0] > w as i64).unwrap_or(false) {
                    Exp::OrErr(Ty::G(UInt(None)))
                } else {
                    one(UInt(lift1(width(x), |w| w - p[0])))
                }
            }
            _ => Exp::Any,
        },
        Op::Incp => match g[0] {
            Some(Fixed(a, x)) => {
                one(Fixed(lift1(a, |a| a + p[0]), x.and_then(|x| p16(x as i64 + p[0]))))
            }
            _ => Exp::Any,
        },
        Op::Decp => match g[0] {
            Some(Fixed(a, x)) => {
                let t = Fixed(lift1(a, |a| a - p[0]), x.and_then(|x| p16(x as i64 - p[0])));
                if a.map(|a| (a as i64) < p[0]).unwrap_or(false) {
                    Exp::OrErr(Ty::G(t))
                } else {
                    one(t)
                }
            }
            _ => Exp::Any,
        },
        Op::Setp => match g[0] {
            Some(Fixed(a, x)) => {
                let v = match (a, x) {
                    (Some(a), Some(x)) => Some(a as i64 - x as i64 + p[0]),
                    _ => None,
                };
                let t = Ty::G(Fixed(v.and_then(w16), p16(p[0])));
                if v.map(|v| v < 0).unwrap_or(false) {
                    Exp::OrErr(t)
                } else {
                    Exp::T(t)
                }
            }
            _ => Exp::Any,
        },
    }
}

/// The type of an expression, given the types of its direct operands (`None`
/// for operands without a type) and of references
pub fn node(e: &Ex, subs: &[Option<Ty>], of_ref: impl Fn(&N) -> Option<Ty>) -> Exp {
    // operands which have no type make the whole expression ill-typed; no
    // claim is made about which errors are noticed where
    let sub = |i: usize| subs[i].as_ref();
    match e {
        Ex::U(_, w) => Exp::T(Ty::G(Gt::UInt(Some(*w)))),
        Ex::S(_, w) => Exp::T(Ty::G(Gt::SInt(Some(*w)))),
        Ex::Ref(x) => of_ref(x).map(Exp::T).unwrap_or(Exp::Any),
        Ex::Field(_, f) => match sub(0) {
            None => Exp::Err,
            Some(Ty::B(v)) => v.iter().find(|x| &x.name == f).map(|x| Exp::T(x.ty.clone())).unwrap_or(Exp::Err),
            Some(_) => Exp::Err,
        },
        Ex::Index(..) => match sub(0) {
            None => Exp::Err,
            Some(Ty::V(t, _)) => Exp::T((**t).clone()),
            Some(_) => Exp::Err,
        },
        Ex::Access(..) => match (sub(0), sub(1)) {
            (None, _) => Exp::Err,
            (Some(Ty::V(t, _)), Some(Ty::G(Gt::UInt(_)))) => Exp::T((**t).clone()),
            (Some(Ty::V(..)), _) => Exp::Any,
            (Some(_), _) => Exp::Err,
        },
        Ex::Mux(..) => match (sub(1), sub(2)) {
            (Some(a), Some(b)) => combine(a, b).map(Exp::Loose).unwrap_or(Exp::Err),
            _ => Exp::Err,
        },
        Ex::ValidIf(..) => sub(1).map(|t| Exp::T(t.clone())).unwrap_or(Exp::Err),
        Ex::Op(op, _, p) => {
            if subs.iter().any(|s| s.is_none()) {
                Exp::Any
            } else {
                let v: Vec<Ty> = subs.iter().map(|s| s.clone().unwrap()).collect();
                prim(*op, &v, p)
            }
        }
    }
}

/// Type of a whole expression by the oracle alone
pub fn type_of(e: &Ex, of_ref: &dyn Fn(&N) -> Option<Ty>) -> Option<Ty> {
    let subs: Vec<_> = e.subs().into_iter().map(|s| type_of(s, of_ref)).collect();
    node(e, &subs, of_ref).preferred()
}

// ------------------------------------------------------------- equivalence

fn gt_kind_eq(a: Gt, b: Gt) -> bool {
    std::mem::discriminant(&a) == std::mem::discriminant(&b)
}

pub fn equiv(a: &Ty, b: &Ty) -> bool {
    match (a, b) {
        (Ty::G(a), Ty::G(b)) => gt_kind_eq(*a, *b),
        (Ty::V(a, n), Ty::V(b, m)) => n == m && equiv(a, b),
        (Ty::B(a), Ty::B(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| x.name == y.name && x.flip == y.flip && equiv(&x.ty, &y.ty))
        }
        _ => false,
    }
}

/// Leaves and structure with resulting orientations
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Or {
    G(Gt, bool),
    V(Box<Or>, u16),
    B(Vec<(N, Or)>),
}

pub fn orient(t: &Ty, flip: bool) -> Or {
    match t {
        Ty::G(g) => Or::G(*g, flip),
        Ty::V(t, n) => Or::V(Box::new(orient(t, flip)), *n),
        Ty::B(v) => Or::B(v.iter().map(|f| (f.name.clone(), orient(&f.ty, flip ^ f.flip))).collect()),
    }
}

pub fn or_equiv(a: &Or, b: &Or) -> bool {
    match (a, b) {
        (Or::G(a, x), Or::G(b, y)) => gt_kind_eq(*a, *b) && x == y,
        (Or::V(a, n), Or::V(b, m)) => n == m && or_equiv(a, b),
        (Or::B(a), Or::B(b)) => a.len() == b.len() && a.iter().zip(b).all(|((n, x), (m, y))| n == m && or_equiv(x, y)),
        _ => false,
    }
}

pub fn or_passive(a: &Or) -> bool {
    match a {
        Or::G(_, f) => !f,
        Or::V(t, _) => or_passive(t),
        Or::B(v) => v.iter().all(|(_, t)| or_passive(t)),
    }
}

pub fn weak_equiv(a: &Ty, b: &Ty) -> bool {
    or_equiv(&orient(a, false), &orient(b, false))
}

pub fn passive(t: &Ty) -> bool {
    match t {
        Ty::G(_) => true,
        Ty::V(t, _) => passive(t),
        Ty::B(v) => v.iter().all(|f| !f.flip && passive(&f.ty)),
    }
}

/// Least type covering both, compare with `Exp::Loose`
pub fn combine(a: &Ty, b: &Ty) -> Option<Ty> {
    combine_with(a, b, &|l, r| match (l, r) {
        (Gt::Fixed(a, x), Gt::Fixed(b, y)) => Some(fixed_max((a, x), (b, y), 0).0),
        (Gt::UInt(a), Gt::UInt(b)) => Some(Gt::UInt(lift2(a, b, |a, b| a.max(b)))),
        (Gt::SInt(a), Gt::SInt(b)) => Some(Gt::SInt(lift2(a, b, |a, b| a.max(b)))),
        (Gt::Analog(a), Gt::Analog(b)) => Some(Gt::Analog(lift2(a, b, |a, b| a.max(b)))),
        (a, b) if a == b => Some(a),
        _ => None,
    })
}

pub fn combine_with(a: &Ty, b: &Ty, f: &dyn Fn(Gt, Gt) -> Option<Gt>) -> Option<Ty> {
    match (a, b) {
        (Ty::G(a), Ty::G(b)) => f(*a, *b).map(Ty::G),
        (Ty::V(a, n), Ty::V(b, m)) if n == m => Some(Ty::V(Box::new(combine_with(a, b, f)?), *n)),
        (Ty::B(a), Ty::B(b)) if a.len() == b.len() => {
            let mut v = vec![];
            for (x, y) in a.iter().zip(b) {
                if x.name != y.name || x.flip != y.flip {
                    return None;
                }
                v.push(Fl { name: x.name.clone(), flip: x.flip, ty: combine_with(&x.ty, &y.ty, f)? });
            }
            Some(Ty::B(v))
        }
        _ => None,
    }
}

pub fn widths_known(t: &Ty) -> bool {
    match t {
        Ty::G(Gt::UInt(w)) | Ty::G(Gt::SInt(w)) | Ty::G(Gt::Analog(w)) => w.is_some(),
        Ty::G(Gt::Fixed(w, p)) => w.is_some() && p.is_some(),
        Ty::G(_) => true,
        Ty::V(t, _) => widths_known(t),
        Ty::B(v) => v.iter().all(|f| widths_known(&f.ty)),
    }
}

// ---------------------------------------------------------------- entities

pub fn field(name: &str, flip: bool, ty: Ty) -> Fl {
    Fl { name: n(name), flip, ty }
}

pub fn addr_width(depth: u64) -> u16 {
    // the least w with 2^w >= depth
    (0..=64u16).find(|w| (1u128 << w) >= depth as u128).unwrap()
}

pub fn mask_ty(t: &Ty) -> Ty {
    match t {
        Ty::G(_) => U1,
        Ty::V(t, w) => Ty::V(Box::new(mask_ty(t)), *w),
        Ty::B(v) => Ty::B(v.iter().map(|f| Fl { name: f.name.clone(), flip: f.flip, ty: mask_ty(&f.ty) }).collect()),
    }
}

pub fn mem_ty(m: &Mem) -> Ty {
    let ctl = |v: &mut Vec<Fl>| {
        v.push(field("addr", false, Ty::G(Gt::UInt(Some(addr_width(m.depth))))));
        v.push(field("en", false, U1));
        v.push(field("clk", false, Ty::G(Gt::Clock)));
    };
    Ty::B(
        m.ports
            .iter()
            .map(|(name, d)| {
                let mut v = vec![];
                match d {
                    PDir::Read => v.push(field("data", true, m.ty.clone())),
                    PDir::Write => {
                        v.push(field("data", false, m.ty.clone()));
                        v.push(field("mask", false, mask_ty(&m.ty)));
                    }
                    PDir::ReadWrite => {
                        v.push(field("wmode", false, U1));
                        v.push(field("rdata", true, m.ty.clone()));
                        v.push(field("wdata", false, m.ty.clone()));
                        v.push(field("wmask", false, mask_ty(&m.ty)));
                    }
                }
                ctl(&mut v);
                Fl { name: name.clone(), flip: true, ty: Ty::B(v) }
            })
            .collect(),
    )
}

pub fn inst_ty(ports: &[Port]) -> Ty {
    Ty::B(ports.iter().map(|p| Fl { name: p.name.clone(), flip: p.input, ty: p.ty.clone() }).collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fw {
    Source,
    Sink,
    Duplex,
}

pub fn mport_flow(d: Option<PDir>) -> Option<Fw> {
    d.map(|d| match d {
        PDir::Read => Fw::Source,
        PDir::Write => Fw::Sink,
        PDir::ReadWrite => Fw::Duplex,
    })
}

pub fn decl_flow(d: &De) -> Option<Fw> {
    match d {
        De::Wire(..) | De::Reg { .. } => Some(Fw::Duplex),
        De::Node(..) | De::Mem(_) | De::Inst { .. } => Some(Fw::Source),
        De::MPort { dir, .. } => mport_flow(*dir),
    }
}

pub fn flip_flow(f: Fw, flip: bool) -> Fw {
    match (f, flip) {
        (Fw::Source, true) => Fw::Sink,
        (Fw::Sink, true) => Fw::Source,
        (f, _) => f,
    }
}

/// Flow of an expression: `Err(())` if it must be an error
pub fn flow_of(
    e: &Ex,
    ref_flow: &dyn Fn(&N) -> Option<Fw>,
    ref_ty: &dyn Fn(&N) -> Option<Ty>,
) -> Result<Fw, ()> {
    match e {
        Ex::Ref(x) => ref_flow(x).ok_or(()),
        Ex::Field(b, f) => {
            let base = flow_of(b, ref_flow, ref_ty)?;
            match type_of(b, ref_ty) {
                Some(Ty::B(v)) => v.iter().find(|x| &x.name == f).map(|x| flip_flow(base, x.flip)).ok_or(()),
                _ => Err(()),
            }
        }
        Ex::Index(b, _) | Ex::Access(b, _) => flow_of(b, ref_flow, ref_ty),
        _ => Ok(Fw::Source),
    }
}
