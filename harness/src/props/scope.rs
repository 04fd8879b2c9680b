//! Name resolution

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use firrtl_ast::circuit::{self, parse};
use firrtl_ast::memory::{mem, simple, Register};
use firrtl_ast::module::{Direction, Instance, Module as AModule, Port as APort};
use firrtl_ast::stmt::context::{Context, SubContext, TopContext};
use firrtl_ast::stmt::Entity;
use firrtl_ast::types::{GroundType, Type};
use firrtl_ast::Named;

use super::*;
use crate::conv::{self, lift, lift_module, Same};
use crate::engine::{fail, Cx, Prop, Res};
use crate::render::{text_of, Style};
use crate::tape::Src;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C08",
        rule: "random circuits whose ports, declarations, memories and modules share a pool of very few names while each declaration has a width of its own; the resolved declaration of every use is compared, and one use each is replaced by a name not declared before it; non-trivial: at least two uses, or a use was replaced",
        quick: 160_000,
        thorough: 6_400_000,
        run: c08,
    },
    Prop {
        id: "C19",
        rule: "random sequences of additions, openings and closings of scopes are applied to the library's contexts and to a stack of maps, comparing all lookups after every step; non-trivial: at least one scope holding an item was closed",
        quick: 1_200_000,
        thorough: 48_000_000,
        run: c19,
    },
];

// ------------------------------------------------------------------- C08

struct Sg<'a> {
    s: &'a mut Src,
    pool: Vec<N>,
    ents: Vec<N>,
    mems: Vec<N>,
    mods: Vec<N>,
    serial: u16,
    left: usize,
}

fn push(v: &mut Vec<N>, x: &N) {
    if !v.contains(x) {
        v.push(x.clone())
    }
}

impl Sg<'_> {
    fn name(&mut self) -> N {
        self.s.pick(&self.pool).clone()
    }
    /// A type no other declaration has
    fn ty(&mut self) -> Ty {
        self.serial += 1;
        Ty::G(Gt::UInt(Some(self.serial)))
    }
    fn ex(&mut self, d: usize) -> Ex {
        let leaf = d == 0 || self.s.chance(1, 2);
        if leaf {
            if self.ents.is_empty() {
                return Ex::U(1u8.into(), 1);
            }
            let i = self.s.below(self.ents.len());
            return Ex::Ref(self.ents[i].clone());
        }
        let f: N = n("f");
        match self.s.below(9) {
            0 => Ex::Field(Box::new(self.ex(d - 1)), f),
            1 => Ex::Index(Box::new(self.ex(d - 1)), 1),
            2 => Ex::Access(Box::new(self.ex(d - 1)), Box::new(self.ex(d - 1))),
            3 => Ex::Mux(Box::new(self.ex(d - 1)), Box::new(self.ex(d - 1)), Box::new(self.ex(d - 1))),
            4 => Ex::ValidIf(Box::new(self.ex(d - 1)), Box::new(self.ex(d - 1))),
            _ => {
                let op = *self.s.pick(&OPS);
                let (_, k, p) = op.sig();
                let args = (0..k).map(|_| self.ex(d - 1)).collect();
                Ex::Op(op, args, vec![1; p])
            }
        }
    }
    fn decl(&mut self) -> De {
        let name = self.name();
        let d = match self.s.weighted(&[3, 3, 2, 2, 3, 3]) {
            0 => De::Wire(name, self.ty()),
            1 => {
                let ty = self.ty();
                let clk = self.ex(1);
                let reset = if self.s.coin() { Some((self.ex(1), self.ex(1))) } else { None };
                De::Reg { name, ty, clk, reset }
            }
            2 => De::Node(name, self.ex(3)),
            3 => De::Mem(Mem {
                name,
                ty: self.ty(),
                depth: 4,
                ports: vec![(n("r"), PDir::Read)],
                rl: 0,
                wl: 1,
                ruw: Ruw::Undefined,
            }),
            4 if !self.mems.is_empty() => {
                let i = self.s.below(self.mems.len());
                let mem = self.mems[i].clone();
                let dir = *self.s.pick(&[None, Some(PDir::Read), Some(PDir::Write), Some(PDir::ReadWrite)]);
                De::MPort { name, mem, dir, addr: self.ex(2), clk: self.ex(1) }
            }
            5 if !self.mods.is_empty() => {
                let i = self.s.below(self.mods.len());
                De::Inst { name, module: self.mods[i].clone() }
            }
            _ => De::Wire(name, self.ty()),
        };
        d
    }
    fn stmt(&mut self, d: usize) -> St {
        let when = if d > 0 { 3 } else { 0 };
        let k = match self.s.weighted(&[8, 2, 3, 1, 1, 1, 1, 1, when]) {
            0 => {
                let d = self.decl();
                push(&mut self.ents, d.name());
                Sk::Decl(d)
            }
            1 => {
                let x = self.name();
                let t = Ty::V(Box::new(self.ty()), 3);
                push(&mut self.mems, &x);
                Sk::SMem(x, t, if self.s.coin() { SmKind::C } else { SmKind::S(None) })
            }
            2 => Sk::Connect(self.ex(1), self.ex(3)),
            3 => Sk::Partial(self.ex(1), self.ex(2)),
            4 => Sk::Invalid(self.ex(1)),
            5 => {
                let k = self.s.range(1, 3);
                Sk::Attach((0..k).map(|_| self.ex(0)).collect())
            }
            6 => Sk::Stop { name: None, clk: self.ex(1), cond: self.ex(1), code: 1 },
            7 => {
                let (clk, cond) = (self.ex(1), self.ex(1));
                let k = self.s.range(0, 3);
                let msg = (0..k).map(|_| Pe::Val(self.ex(2), Fmt::D)).collect();
                Sk::Print { name: None, clk, cond, msg }
            }
            _ => {
                let c = self.ex(2);
                let a = self.block(d - 1);
                let b = if self.s.coin() { self.block(d - 1) } else { vec![] };
                Sk::When(c, a, b)
            }
        };
        St { k, info: None }
    }
    fn block(&mut self, d: usize) -> Vec<St> {
        let k = self.s.range(1, 5).min(self.left.max(1));
        self.left = self.left.saturating_sub(k);
        (0..k).map(|_| self.stmt(d)).collect()
    }
    fn module(&mut self, name: N, ext: bool) -> Module {
        self.ents.clear();
        self.mems.clear();
        let k = self.s.range(0, 3);
        let ports: Vec<_> = (0..k)
            .map(|_| {
                let name = self.name();
                push(&mut self.ents, &name);
                Port { name, input: self.s.coin(), ty: self.ty(), info: None }
            })
            .collect();
        let kind = if ext {
            Mk::Ext { defname: None, params: Default::default() }
        } else {
            let mut v = vec![];
            self.left = 24;
            for _ in 0..self.s.range(1, 3) {
                v.extend(self.block(3))
            }
            Mk::Reg(v)
        };
        let m = Module { name: name.clone(), info: None, ports, kind };
        push(&mut self.mods, &name);
        m
    }
}

fn scoped(s: &mut Src) -> Circuit {
    let names: &[&[&str]] = &[&["a", "b", "c"], &["a", "b"], &["x", "A", "a"], &["a", "a1", "a_", "b"], &["n", "of", "mem", "b"], &["r", "f", "a"]];
    let pool: Vec<N> = s.pick(names).iter().map(n).collect();
    let mut g = Sg { s, pool: pool.clone(), ents: vec![], mems: vec![], mods: vec![], serial: 0, left: 0 };
    let repeat = g.s.chance(1, 3);
    let top = n("Top");
    let mut mods = vec![];
    let mut free = pool.clone();
    for _ in 0..g.s.range(0, 4) {
        let name = if repeat {
            g.name()
        } else {
            if free.is_empty() {
                break;
            }
            let i = g.s.below(free.len());
            free.remove(i)
        };
        let ext = g.s.chance(1, 6);
        mods.push(g.module(name, ext));
    }
    // the top may, but need not be the last one, and may share its name with an entity
    let name = if !repeat && !free.is_empty() && g.s.coin() { free[0].clone() } else { top };
    mods.push(g.module(name.clone(), false));
    Circuit { top: name, info: None, mods }.normalized()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ns {
    Ent,
    Mem,
    Mod,
}

#[derive(Default, Clone)]
struct Vis {
    ents: BTreeSet<N>,
    mems: BTreeSet<N>,
    mods: BTreeSet<N>,
}

impl Vis {
    fn of(&self, k: Ns) -> &BTreeSet<N> {
        match k {
            Ns::Ent => &self.ents,
            Ns::Mem => &self.mems,
            Ns::Mod => &self.mods,
        }
    }
}

fn elsewhere(k: Ns, x: &N, v: &Vis) -> bool {
    (k != Ns::Ent && v.ents.contains(x)) || (k != Ns::Mem && v.mems.contains(x)) || (k != Ns::Mod && v.mods.contains(x))
}

type OnUse<'a> = &'a mut dyn FnMut(Ns, &mut N, &Vis);

fn u_ex(e: &mut Ex, v: &Vis, f: OnUse) {
    match e {
        Ex::Ref(x) => f(Ns::Ent, x, v),
        Ex::U(..) | Ex::S(..) => (),
        Ex::Field(b, _) | Ex::Index(b, _) => u_ex(b, v, f),
        Ex::Access(a, b) | Ex::ValidIf(a, b) => {
            u_ex(a, v, f);
            u_ex(b, v, f)
        }
        Ex::Mux(a, b, c) => {
            u_ex(a, v, f);
            u_ex(b, v, f);
            u_ex(c, v, f)
        }
        Ex::Op(_, a, _) => a.iter_mut().for_each(|e| u_ex(e, v, f)),
    }
}

fn u_stmts(b: &mut [St], v: &mut Vis, f: OnUse) {
    for s in b {
        match &mut s.k {
            Sk::Connect(x, y) | Sk::Partial(x, y) => {
                u_ex(x, v, f);
                u_ex(y, v, f)
            }
            Sk::Skip => (),
            Sk::Decl(d) => {
                match d {
                    De::Wire(..) | De::Mem(_) => (),
                    De::Reg { clk, reset, .. } => {
                        u_ex(clk, v, f);
                        if let Some((a, b)) = reset {
                            u_ex(a, v, f);
                            u_ex(b, v, f)
                        }
                    }
                    De::Node(_, e) => u_ex(e, v, f),
                    De::MPort { mem, addr, clk, .. } => {
                        f(Ns::Mem, mem, v);
                        u_ex(addr, v, f);
                        u_ex(clk, v, f)
                    }
                    De::Inst { module, .. } => f(Ns::Mod, module, v),
                }
                v.ents.insert(d.name().clone());
            }
            Sk::SMem(x, ..) => {
                v.mems.insert(x.clone());
            }
            Sk::Invalid(e) => u_ex(e, v, f),
            Sk::Attach(w) => w.iter_mut().for_each(|e| u_ex(e, v, f)),
            Sk::When(c, a, b) => {
                u_ex(c, v, f);
                u_stmts(a, v, f);
                u_stmts(b, v, f)
            }
            Sk::Stop { clk, cond, .. } => {
                u_ex(clk, v, f);
                u_ex(cond, v, f)
            }
            Sk::Print { clk, cond, msg, .. } => {
                u_ex(clk, v, f);
                u_ex(cond, v, f);
                for p in msg {
                    if let Pe::Val(e, _) = p {
                        u_ex(e, v, f)
                    }
                }
            }
        }
    }
}

/// All uses of names with what is declared before them
fn uses(c: &mut Circuit, f: OnUse) {
    let mut mods = BTreeSet::new();
    for m in &mut c.mods {
        let mut v = Vis { mods: mods.clone(), ..Default::default() };
        v.ents.extend(m.ports.iter().map(|p| p.name.clone()));
        if let Mk::Reg(s) = &mut m.kind {
            u_stmts(s, &mut v, f)
        }
        mods.insert(m.name.clone());
    }
}

fn all_names(c: &Circuit) -> BTreeSet<N> {
    let mut r: BTreeSet<N> = [n("Top"), n("zz"), n("f"), n("r")].into_iter().collect();
    for m in &c.mods {
        r.insert(m.name.clone());
        r.extend(m.ports.iter().map(|p| p.name.clone()));
        walk(m.stmts(), &mut |s| match &s.k {
            Sk::Decl(d) => {
                r.insert(d.name().clone());
            }
            Sk::SMem(x, ..) => {
                r.insert(x.clone());
            }
            _ => (),
        });
    }
    r
}

fn c08(cx: &mut Cx) -> Res {
    let mut c = scoped(&mut cx.src);
    let mut total = 0u64;
    uses(&mut c, &mut |_, _, _| total += 1);
    let style = Style { structure: cx.src.chance(1, 4), spacing: false, notation: false };
    let (_, t) = text_of(&mut cx.src, &c, style);
    let text = t.text;
    cx.sample(|| text.clone());
    let mut content = false;
    if total >= 2 {
        content = true;
        cx.count("with several uses");
    }
    cx.add("uses", total);

    // each module's uses refer to the latest preceding declarations
    let mut con = match circuit::consumer(&text) {
        Ok(c) => c,
        Err(e) => return fail(format!("rejected by consumer: {}", e), text),
    };
    let mut latest: HashMap<N, Arc<AModule>> = HashMap::new();
    let mut same = Same::default();
    let mut repeated = false;
    for m in &c.mods {
        let x = match con.next() {
            Some(Ok(x)) => x,
            Some(Err(e)) => return fail(format!("module {:?}: {}", m.name, e), text),
            None => return fail(format!("module {:?} missing", m.name), text),
        };
        match lift_module(&x) {
            Err(e) => return fail(e, text),
            Ok((got, deps)) => {
                cx.checks(1);
                ensure!(&got == m, text, "module {:?} differs: {}", m.name, diff(m, &got));
                for d in deps {
                    cx.checks(1);
                    match latest.get(d.name()) {
                        None => return fail(format!("instance of {:?}, which is not defined before", d.name()), text),
                        Some(l) => ensure!(
                            same.module(l, &d),
                            text,
                            "an instance in {:?} does not refer to the latest preceding definition of {:?}",
                            m.name,
                            d.name()
                        ),
                    }
                }
            }
        }
        repeated |= latest.insert(m.name.clone(), x).is_some();
    }
    ensure!(con.next().is_none(), text, "more modules than defined");
    if repeated {
        cx.count("with several definitions of one module");
    } else {
        match parse(&text).map_err(|e| e.to_string()).and_then(|c| lift(&c)) {
            Err(e) => return fail(e, text),
            Ok(v) => {
                let want = c.reachable();
                cx.checks(1);
                ensure!(v == want, text, "parsed circuit differs: {}", diff(&want, &v));
            }
        }
    }

    // a use of anything else is rejected
    let mut names = all_names(&c);
    if cx.src.coin() {
        let more: Vec<N> = names.iter().map(|x| n(crate::gen::near_ident(&mut cx.src, x))).collect();
        names.extend(more);
    }
    let mut sites: Vec<(Ns, bool)> = vec![];
    uses(&mut c, &mut |k, _, v| {
        let mut cand = names.iter().filter(|x| !v.of(k).contains(*x)).peekable();
        if cand.peek().is_some() {
            sites.push((k, cand.any(|x| elsewhere(k, x, v))));
        }
    });
    if !sites.is_empty() {
        let tries = if cx.thorough { 3 } else { 2 };
        for _ in 0..tries {
            let mut d = c.clone();
            // prefer uses of memories and modules, and names known as something else
            let rare: Vec<usize> = match cx.src.below(4) {
                0 => (0..sites.len()).filter(|i| sites[*i].0 != Ns::Ent).collect(),
                1 => (0..sites.len()).filter(|i| sites[*i].1).collect(),
                2 => (0..sites.len()).filter(|i| sites[*i].0 != Ns::Ent && sites[*i].1).collect(),
                _ => vec![],
            };
            let at = if rare.is_empty() { cx.src.below(sites.len()) } else { *cx.src.pick(&rare) };
            let (sel, prefer) = (cx.src.below(64), cx.src.coin());
            let (mut i, mut what) = (0, None);
            uses(&mut d, &mut |k, x, v| {
                let mut cand: Vec<&N> = names.iter().filter(|x| !v.of(k).contains(*x)).collect();
                if cand.is_empty() {
                    return;
                }
                if prefer && cand.iter().any(|x| elsewhere(k, x, v)) {
                    cand.retain(|x| elsewhere(k, x, v))
                }
                if i == at {
                    let y = cand[sel % cand.len()].clone();
                    what = Some((k, y.clone(), elsewhere(k, &y, v)));
                    *x = y;
                }
                i += 1;
            });
            let (k, y, other) = what.unwrap();
            let (_, t) = text_of(&mut cx.src, &d, style);
            let text = t.text;
            cx.count(match k {
                Ns::Ent => "undeclared entity",
                Ns::Mem => "undeclared memory",
                Ns::Mod => "undefined module",
            });
            if other {
                cx.count("undeclared, but known as something else")
            }
            cx.checks(2);
            content = true;
            ensure!(parse(&text).is_err(), text, "{:?} is used as {:?} without being declared before, but the text was accepted", y, k);
            let err = match circuit::consumer(&text) {
                Err(_) => true,
                Ok(con) => con.take(d.mods.len() + 2).any(|m| m.is_err()),
            };
            ensure!(err, text, "{:?} is used as {:?} without being declared before, but the consumer reports no error", y, k);
        }
    }
    if content {
        cx.nontrivial(&c);
    }
    Ok(())
}

// ------------------------------------------------------------------- C19

#[derive(Default)]
struct Lvl {
    ents: BTreeMap<N, Arc<Entity>>,
    mems: BTreeMap<N, Arc<simple::Memory>>,
}

const NAMES: [&str; 8] = ["a", "b", "c", "ä", "aa", "A", "1", "01"];

/// Further names, for cases with many items
const MANY: usize = 48;

struct Drive<'c, 's> {
    cx: &'c mut Cx<'s>,
    levels: Vec<Lvl>,
    mods: BTreeMap<&'static str, Arc<AModule>>,
    budget: usize,
    serial: u16,
    log: String,
    closed: bool,
    /// Items may have many different names
    many: bool,
    /// Scopes are nested deeply
    deep: bool,
}

fn same<T>(a: &Option<Arc<T>>, b: Option<&Arc<T>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
        _ => false,
    }
}

impl Drive<'_, '_> {
    fn name(&mut self) -> N {
        if self.many {
            n(&format!("n{}", self.cx.src.below(MANY)))
        } else {
            n(*self.cx.src.pick(&NAMES))
        }
    }

    fn entity(&mut self) -> Arc<Entity> {
        let name = self.name();
        self.serial += 1;
        let r#type = Type::GroundType(GroundType::UInt(Some(self.serial)));
        let lit = firrtl_ast::expr::Expression::UIntLiteral { value: 1u8.into(), width: self.serial };
        Arc::new(match self.cx.src.below(7) {
            0 => Entity::Wire { name, r#type },
            1 => Arc::new(APort::new(name, r#type, Direction::Input)).into(),
            2 => Register::new(name, r#type, lit).into(),
            3 => mem::Memory::new(name, r#type, self.serial as u64).into(),
            4 => {
                let m = Arc::new(simple::Memory::new("m", r#type, simple::Kind::Combinatory));
                simple::Port::new(name, m, None, lit.clone(), lit).into()
            }
            5 => {
                let m = conv::b_module(&Module { name: n("a"), info: None, ports: vec![], kind: Mk::Reg(vec![]) }, &Default::default());
                Instance::new(name, m).into()
            }
            _ => Entity::Node {
                name,
                value: firrtl_ast::expr::Expression::UIntLiteral { value: 0u8.into(), width: self.serial },
            },
        })
    }

    fn check(&mut self, c: &dyn Context) -> Res {
        let mut names: Vec<String> = NAMES.iter().chain(["zz", ""].iter()).map(|x| x.to_string()).collect();
        if self.many {
            names = (0..MANY + 1).map(|i| format!("n{}", i)).collect();
        }
        for x in names.iter().map(|x| x.as_str()) {
            self.cx.checks(3);
            let want = self.levels.iter().rev().find_map(|l| l.ents.get(x));
            ensure!(same(&c.entity(x), want), self.log.clone(), "lookup of entity {:?} yields {}", x, show(&c.entity(x), want));
            let want = self.levels.iter().rev().find_map(|l| l.mems.get(x));
            ensure!(same(&c.memory(x), want), self.log.clone(), "lookup of memory {:?} yields {}", x, show(&c.memory(x), want));
            let want = self.mods.get(x);
            ensure!(same(&c.module(x), want), self.log.clone(), "lookup of module {:?} yields {}", x, show(&c.module(x), want));
        }
        Ok(())
    }

    fn level<C: Context>(&mut self, c: &mut C, depth: usize) -> Res {
        self.check(c)?;
        while self.budget > 0 {
            self.budget -= 1;
            match self.cx.src.weighted(&[4, 3, if self.deep { 9 } else { 3 }, if depth > 0 { 2 } else { 0 }, 1]) {
                0 => {
                    let e = self.entity();
                    self.log.push_str(&format!("{}entity {}\n", "  ".repeat(depth), e.name()));
                    c.add_entity(e.clone());
                    self.levels.last_mut().unwrap().ents.insert(e.name().clone(), e);
                }
                1 => {
                    let x = self.name();
                    self.serial += 1;
                    let t = Type::Vector(Arc::new(Type::GroundType(GroundType::UInt(Some(self.serial)))), 2);
                    let m = Arc::new(simple::Memory::new(x.clone(), t, simple::Kind::Combinatory));
                    self.log.push_str(&format!("{}memory {}\n", "  ".repeat(depth), x));
                    c.add_memory(m.clone());
                    self.levels.last_mut().unwrap().mems.insert(x, m);
                }
                2 if depth < if self.deep { 40 } else { 6 } => {
                    self.log.push_str(&format!("{}open\n", "  ".repeat(depth)));
                    self.levels.push(Default::default());
                    let via = self.cx.src.coin();
                    if via {
                        let mut s = c.sub();
                        self.level(&mut s, depth + 1)?;
                    } else {
                        let mut s = SubContext::of(c);
                        self.level(&mut s, depth + 1)?;
                    }
                    let l = self.levels.pop().unwrap();
                    self.closed |= !l.ents.is_empty() || !l.mems.is_empty();
                    let p = self.levels.last_mut().unwrap();
                    p.ents.extend(l.ents);
                    p.mems.extend(l.mems);
                    self.log.push_str(&format!("{}close\n", "  ".repeat(depth)));
                }
                3 => break,
                _ => {
                    // adding an item again makes it the latest one
                    let known: Vec<_> = self.levels.iter().flat_map(|l| l.ents.values().cloned()).collect();
                    if !known.is_empty() {
                        let e = self.cx.src.pick(&known).clone();
                        self.log.push_str(&format!("{}entity {} (known)\n", "  ".repeat(depth), e.name()));
                        c.add_entity(e.clone());
                        self.levels.last_mut().unwrap().ents.insert(e.name().clone(), e);
                    }
                }
            }
            self.check(c)?;
        }
        Ok(())
    }
}

fn show<T: Named>(got: &Option<Arc<T>>, want: Option<&Arc<T>>) -> String {
    match (got.is_some(), want.is_some()) {
        (true, true) => "another item of that name than the one most recently added in the innermost scope".into(),
        (true, false) => "an item, but none is known".into(),
        _ => "nothing, but an item is known".into(),
    }
}

fn c19(cx: &mut Cx) -> Res {
    let mut mods = BTreeMap::new();
    for x in NAMES {
        if cx.src.coin() {
            let m = conv::b_module(
                &Module { name: n(x), info: None, ports: vec![], kind: Mk::Reg(vec![]) },
                &Default::default(),
            );
            mods.insert(x, m);
        }
    }
    let mut budget = cx.size * 3;
    let (many, deep) = (cx.src.chance(1, 120), cx.src.chance(1, 50));
    if many {
        budget *= 4;
        cx.count("many different names");
    }
    if deep {
        cx.count("deeply nested scopes");
    }
    let mut d = Drive { cx, levels: vec![Lvl::default()], mods: mods.clone(), budget, serial: 0, log: String::new(), closed: false, many, deep };
    let f = move |x: &str| mods.get(x).cloned();
    let mut top = if d.cx.src.coin() { TopContext::new(f) } else { TopContext::from(f) };
    let k = d.cx.src.below(4);
    let init: Vec<Arc<Entity>> = (0..k).map(|_| d.entity()).collect();
    for e in &init {
        d.log.push_str(&format!("initially {}\n", e.name()));
    }
    if d.cx.src.coin() {
        top = top.with_entities(init.iter().cloned());
        for e in &init {
            d.levels[0].ents.insert(e.name().clone(), e.clone());
        }
        d.level(&mut top, 0)?;
    } else {
        // the entities wrapping the ports are made by the context
        let ports: Vec<Arc<APort>> = init
            .iter()
            .map(|e| {
                d.serial += 1;
                Arc::new(APort::new(e.name().clone(), Type::GroundType(GroundType::SInt(Some(d.serial))), Direction::Output))
            })
            .collect();
        top = top.with_ports(ports.iter().cloned());
        for p in &ports {
            d.cx.checks(1);
            let latest = ports.iter().rev().find(|q| q.name() == p.name()).unwrap();
            match top.entity(p.name()) {
                Some(e) => {
                    ensure!(matches!(&*e, Entity::Port(q) if Arc::ptr_eq(q, latest)), d.log.clone(), "port {:?} is not the latest one", p.name());
                    d.levels[0].ents.insert(p.name().clone(), e);
                }
                None => return fail(format!("port {:?} is not known", p.name()), d.log.clone()),
            }
        }
        d.level(&mut top, 0)?;
    }
    if d.closed {
        let l = d.log.clone();
        d.cx.nontrivial(&l);
    }
    let l = std::mem::take(&mut d.log);
    cx.sample(|| l);
    Ok(())
}
