//! Relations between trees: comparison and copies, independence of each other

use std::sync::Arc;

use firrtl_ast::circuit::{self, parse, Circuit as ACircuit, ModuleConsumer};
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{common, mem, simple};
use firrtl_ast::module::{Kind as AMk, Module as AModule};
use firrtl_ast::stmt::context::{Context, TopContext};
use firrtl_ast::stmt::{Entity, Kind as AK, Statement};
use firrtl_ast::types::{Type, Typed};
use firrtl_ast::Named;

use super::*;
use crate::conv::*;
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{feats, Gen, Opts};
use crate::mutate;
use crate::reader::{read, Read};
use crate::render::{assemble, text_of, Style, PLAIN};
use crate::tape::Src;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C23",
        rule: "pairs of random circuits, the second built from the first one's choices with none or one of them altered, rebuilt with copies instead of shared nodes or parsed from the first one's text, and pairs of types; all nodes of both are compared pairwise by the library and by a reference comparison; non-trivial: the circuits have at least two statements or two modules",
        quick: 400_000,
        thorough: 16_000_000,
        run: c23,
    },
    Prop {
        id: "C24",
        rule: "two to four circuits differing in few choices, sound or faulty, are streamed, parsed, printed, queried and dropped in a random interleaving, with copies of readers continued separately; every result is compared with the generating model or the result of the same call at another time; non-trivial: at least two circuits differ",
        quick: 150_000,
        thorough: 6_000_000,
        run: c24,
    },
];

fn small(cx: &mut Cx) -> Opts {
    let mut o = Opts::full(cx.size.min(14));
    o.max_mods = 3;
    if cx.src.coin() {
        o.weird_names = false;
    }
    o
}

/// The choices with one of them altered
fn altered(s: &mut Src, tape: &[u64]) -> Vec<u64> {
    let mut t = tape.to_vec();
    if t.is_empty() {
        return t;
    }
    let i = s.below(t.len());
    t[i] = match s.below(4) {
        0 => 0,
        1 => t[i].wrapping_sub(1),
        2 => s.u64(),
        _ => t[i].wrapping_add(1),
    };
    t
}

/// A circuit and the choices it results from
fn base(cx: &mut Cx, o: &Opts) -> (Circuit, Vec<u64>) {
    let from = cx.src.rec.len();
    let c = Gen::new(&mut cx.src, o.clone()).circuit();
    (c, cx.src.rec[from..].to_vec())
}

fn variant(s: &mut Src, tape: &[u64], o: &Opts) -> Circuit {
    if s.chance(1, 3) {
        // the same with parts swapped, doubled or left out
        let c = Gen::new(&mut Src::replay(tape.to_vec()), o.clone()).circuit();
        for _ in 0..4 {
            let mut d = c.clone();
            mutate::rearrange(s, &mut d);
            if d != c && sound(&d) {
                return d;
            }
        }
        return c;
    }
    let t = altered(s, tape);
    Gen::new(&mut Src::replay(t), o.clone()).circuit()
}

/// Whether everything referred to is there
fn sound(c: &Circuit) -> bool {
    let (_, t) = text_of(&mut Src::replay(vec![]), &c.clone().normalized(), PLAIN);
    matches!(read(&t.text), Read::Ok { .. })
}

// ------------------------------------------------------------------- C23

/// Nodes of a circuit
#[derive(Default)]
struct Nodes {
    mods: Vec<Arc<AModule>>,
    stmts: Vec<Statement>,
    ents: Vec<Arc<Entity>>,
    exprs: Vec<AEx>,
    smems: Vec<Arc<simple::Memory>>,
}

impl Nodes {
    fn of(c: &ACircuit) -> Self {
        let mut r = Nodes::default();
        let mut todo = vec![c.top_module().clone()];
        while let Some(m) = todo.pop() {
            if r.mods.iter().any(|x| Arc::ptr_eq(x, &m)) || r.mods.len() >= 6 {
                continue;
            }
            todo.extend(m.referenced_modules().cloned());
            if let AMk::Regular { stmts } = m.kind() {
                r.stmts(stmts);
            }
            for p in m.ports() {
                r.ents.push(Arc::new(p.clone().into()));
            }
            r.mods.push(m);
        }
        r
    }
    fn stmts(&mut self, v: &[Statement]) {
        for s in v {
            self.stmts.push(s.clone());
            match s.kind() {
                AK::Declaration(e) => {
                    self.ents.push(e.clone());
                    if let Entity::Node { value, .. } = &**e {
                        self.exprs.push(value.clone());
                    }
                }
                AK::SimpleMemDecl(m) => self.smems.push(m.clone()),
                AK::Connection { from, to } => self.exprs.extend([from.clone(), to.clone()]),
                AK::Invalidate(e) => self.exprs.push(e.clone()),
                AK::Conditional { cond, when, r#else } => {
                    self.exprs.push(cond.clone());
                    self.stmts(when);
                    self.stmts(r#else);
                }
                _ => (),
            }
        }
    }
}

struct Cmp {
    same: Same,
    done: u64,
    equal: u64,
    text: String,
}

impl Cmp {
    fn one<T: PartialEq>(&mut self, what: &str, a: &T, b: &T, want: bool, show: impl Fn() -> String) -> Res {
        self.done += 1;
        self.equal += want as u64;
        let r = [a == b, b == a, !(a != b), !(b != a)];
        ensure!(
            r == [want; 4],
            format!("{}\n{}", show(), self.text),
            "{}s which are {} compare as {:?} (==, reversed, not !=, reversed)",
            what,
            if want { "alike" } else { "different" },
            r
        );
        Ok(())
    }
}

/// Pairs to compare: all of few, or those at like places and next to them
fn pairs(s: &mut Src, a: usize, b: usize) -> Vec<(usize, usize)> {
    if a == 0 || b == 0 {
        return vec![];
    }
    let mut v: Vec<_> = (0..a.min(b).min(40)).map(|i| (i, i)).collect();
    for _ in 0..(a * b).min(12) {
        v.push((s.below(a), s.below(b)));
    }
    v
}

fn c23(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 4) {
        return c23_types(cx);
    }
    let o = small(cx);
    let (c, tape) = base(cx, &o);
    circuit_nontrivial(cx, &c);
    let a = b_circuit(&c);
    let mode = cx.src.below(6);
    let mut d = c.clone();
    let b = match mode {
        0 => b_circuit_copies(&c, 1 + cx.src.below(1 << 40) as u64),
        1 => match parse(&a.to_string()) {
            Ok(b) => b,
            // nothing of this property
            Err(_) => return Ok(()),
        },
        _ => {
            d = variant(&mut cx.src, &tape, &o);
            b_circuit(&d)
        }
    };
    let f = feats(&d);
    if f.stmts > 60 || feats(&c).stmts > 60 {
        return Ok(());
    }
    let text = format!("{}\n---- and\n{}", a, b);
    let (va, vb) = (lift(&a), lift(&b));
    let (va, vb) = match (va, vb) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return Ok(()),
    };
    let mut k = Cmp { same: Same::default(), done: 0, equal: 0, text };
    let want = va == vb;
    k.one("circuit", &a, &b, want, String::new)?;
    cx.count(if want { "equal circuits" } else { "different circuits" });
    let (x, y) = (Nodes::of(&a), Nodes::of(&b));
    for (i, j) in pairs(&mut cx.src, x.mods.len(), y.mods.len()) {
        let (p, q) = (&x.mods[i], &y.mods[j]);
        let want = k.same.module(p, q);
        k.one("module", p, q, want, || format!("{:?} and {:?}", p.name(), q.name()))?;
    }
    for (i, j) in pairs(&mut cx.src, x.stmts.len(), y.stmts.len()) {
        let (p, q) = (&x.stmts[i], &y.stmts[j]);
        let want = k.same.stmt(p, q);
        k.one("statement", p, q, want, || format!("statements {} and {} (depth first)", i, j))?;
        let want = want || p.info() != q.info() && {
            let q = q.clone().with_info(p.info().map(|s| s.to_string()));
            k.same.stmt(p, &q)
        };
        k.one("statement kind", p.kind(), q.kind(), want, || format!("statements {} and {} (depth first)", i, j))?;
    }
    for (i, j) in pairs(&mut cx.src, x.ents.len(), y.ents.len()) {
        let (p, q) = (&x.ents[i], &y.ents[j]);
        let want = k.same.ent(p, q);
        k.one("entity", p, q, want, || format!("{:?} and {:?}", p.name(), q.name()))?;
        match (&**p, &**q) {
            (Entity::Port(p), Entity::Port(q)) => k.one("port", p, q, want, String::new)?,
            (Entity::Register(p), Entity::Register(q)) => k.one("register", p, q, want, String::new)?,
            (Entity::Memory(p), Entity::Memory(q)) => k.one("memory", p, q, want, String::new)?,
            (Entity::SimpleMemPort(p), Entity::SimpleMemPort(q)) => k.one("memory port", p, q, want, String::new)?,
            (Entity::Instance(p), Entity::Instance(q)) => k.one("instance", p, q, want, String::new)?,
            _ => (),
        }
    }
    for (i, j) in pairs(&mut cx.src, x.exprs.len(), y.exprs.len()) {
        let (p, q) = (&x.exprs[i], &y.exprs[j]);
        let want = k.same.ex(p, q);
        k.one("expression", p, q, want, || format!("{} and {}", p, q))?;
        if let (Expression::PrimitiveOp(p), Expression::PrimitiveOp(q)) = (p, q) {
            k.one("operation", p, q, want, || format!("{} and {}", p, q))?;
        }
    }
    for (i, j) in pairs(&mut cx.src, x.smems.len(), y.smems.len()) {
        let (p, q) = (&x.smems[i], &y.smems[j]);
        let want = l_smem(p) == l_smem(q);
        k.one("simple memory", p, q, want, || format!("{} and {}", p, q))?;
    }
    copies_are_separate(cx, &a, &x, &mut k)?;
    let (done, equal) = (k.done, k.equal);
    cx.checks(done);
    cx.add("pairs alike", equal);
    cx.add("pairs differing", done - equal);
    cx.sample(|| k.text.clone());
    Ok(())
}

/// Copies equal the original; altering a copy leaves the original as it was
fn copies_are_separate(cx: &mut Cx, a: &ACircuit, x: &Nodes, k: &mut Cmp) -> Res {
    let new = Some(Gen::new(&mut cx.src, Opts::full(4)).text());
    macro_rules! info {
        ($what:expr, $o:expr) => {{
            let old = $o.info().map(|s| s.to_string());
            let mut c = $o.clone();
            k.one($what, &c, $o, true, || format!("copy of a {}", $what))?;
            c.set_info(new.clone());
            k.one($what, &c, $o, old == new, || format!("a {} and its copy with another info", $what))?;
            ensure!($o.info().map(|s| s.to_string()) == old, k.text.clone(), "info of a {} changed with that of its copy", $what);
            c.set_info(old);
            k.one($what, &c, $o, true, || format!("a {} and its copy with the info restored", $what))?;
        }};
    }
    let before = a.to_string();
    info!("circuit", a);
    for m in x.mods.iter().take(2) {
        info!("module", &**m);
    }
    for s in x.stmts.iter().take(4) {
        info!("statement", s);
    }
    for e in x.ents.iter().take(12) {
        match &**e {
            Entity::Port(p) => info!("port", &**p),
            Entity::Memory(m) => {
                let mut c = m.clone();
                k.one("memory", &c, m, true, String::new)?;
                let n = m.ports().count();
                c.add_port(mem::Port { name: "x".into(), dir: common::PortDir::Read });
                k.one("memory", &c, m, false, || "a memory and its copy with a further port".into())?;
                ensure!(m.ports().count() == n, k.text.clone(), "a memory got a port added to its copy");
            }
            _ => {
                let c: Entity = (**e).clone();
                k.one("entity", &c, e, true, String::new)?;
            }
        }
    }
    for e in x.exprs.iter().take(6) {
        k.one("expression", &e.clone(), e, true, || e.to_string())?;
    }
    ensure!(same_lines(&a.to_string(), &before), before, "circuit prints differently after copies of its parts were altered");
    Ok(())
}

fn c23_types(cx: &mut Cx) -> Res {
    let o = Opts::full(cx.size);
    let from = cx.src.rec.len();
    let t = Gen::new(&mut cx.src, o.clone()).ty(4);
    let tape = cx.src.rec[from..].to_vec();
    let u = match cx.src.below(5) {
        0 => t.clone(),
        1 => Gen::new(&mut cx.src, o.clone()).ty(2),
        _ => Gen::new(&mut Src::replay(altered(&mut cx.src, &tape)), o.clone()).ty(4),
    };
    let (a, b) = (b_ty(&t), b_ty(&u));
    let b = if cx.src.coin() { share_ty(&a, &b) } else { b };
    let mut k = Cmp { same: Same::default(), done: 0, equal: 0, text: format!("{}\n{}", a, b) };
    k.one("type", &a, &b, t == u, String::new)?;
    k.one("type", &a.clone(), &a, true, String::new)?;
    for (x, y, m) in [(&a, &u, &t), (&b, &t, &u)] {
        // a type compared with a ground type
        if let Ty::G(g) = y {
            let g2 = b_gt(*g);
            let want = m == y;
            ensure!((*x == g2) == want && (*x != g2) == !want, k.text.clone(), "comparison of {} with ground type {} is wrong", x, g2);
            if let Type::GroundType(g1) = x {
                k.one("ground type", g1, &g2, want, String::new)?;
            }
        }
    }
    if let (Some(v), Some(w)) = (a.fields(), b.fields()) {
        let (v, w): (Vec<_>, Vec<_>) = (v.collect(), w.collect());
        for (i, j) in pairs(&mut cx.src, v.len(), w.len()) {
            k.one("field", v[i], w[j], l_field(v[i]) == l_field(w[j]), || format!("fields {} and {}", i, j))?;
        }
    }
    let (done, equal) = (k.done, k.equal);
    cx.checks(done);
    cx.add("pairs alike", equal);
    cx.add("pairs differing", done - equal);
    cx.count(if t == u { "equal types" } else { "different types" });
    if !matches!(t, Ty::G(_)) {
        cx.nontrivial(&(t, u));
    }
    Ok(())
}

/// Equal but for the order of lines (external parameters are not ordered)
fn same_lines(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let (mut x, mut y): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    x.sort();
    y.sort();
    x == y
}

// ------------------------------------------------------------------- C24

/// One text and what is to be got from it
struct Job {
    text: String,
    /// The circuit, or `None` if the text is faulty
    want: Option<View>,
    /// Names of the modules in order, if sound
    order: Vec<N>,
    /// Results obtained earlier
    printed: Option<String>,
    facts: Option<Vec<String>>,
    error: Option<String>,
}

/// Types and flows of everything in a circuit
fn facts(c: &ACircuit) -> Vec<String> {
    let n = Nodes::of(c);
    let mut v = vec![];
    for e in &n.ents {
        v.push(match e.r#type() {
            Ok(t) => format!("{:?}", l_ty(&t)),
            Err(_) => "none".into(),
        });
    }
    for e in &n.exprs {
        v.push(match e.r#type() {
            Ok(t) => format!("{:?} {:?}", l_ty(&t), e.flow().ok()),
            Err(_) => format!("none {:?}", e.flow().ok()),
        });
        v.push(format!("{}", e.references().count()));
    }
    for s in &n.stmts {
        v.push(format!("{} {}", s.declarations().count(), s.instantiations().count()));
    }
    v
}

enum Stream<'i> {
    Open(ModuleConsumer<firrtl_ast::module::Modules<'i>, firrtl_ast::error::ParseError>, usize),
    None,
}

fn c24(cx: &mut Cx) -> Res {
    let o = small(cx);
    let (c, tape) = base(cx, &o);
    let k = cx.src.range(2, 4);
    let mut models = vec![c];
    for _ in 1..k {
        models.push(variant(&mut cx.src, &tape, &o));
    }
    let mut jobs = vec![];
    for c in &models {
        let style = Style { structure: false, spacing: false, notation: cx.src.coin() };
        let c = c.clone().normalized();
        let (mut lines, t) = text_of(&mut cx.src, &c, style);
        let mut text = t.text;
        let mut want = Some(c.reachable());
        if cx.src.chance(1, 5) {
            mutate::one(&mut cx.src, &mut lines);
            let m = assemble(&mut cx.src, &lines, false).text;
            match read(&m) {
                Read::Reject(..) => {
                    want = None;
                    text = m
                }
                _ => (),
            }
        }
        jobs.push(Job { text, want, order: c.mods.iter().map(|m| m.name.clone()).collect(), printed: None, facts: None, error: None });
    }
    let texts: Vec<String> = jobs.iter().map(|j| j.text.clone()).collect();
    let all = texts.join("\n----\n");
    let mut streams: Vec<Stream> = (0..k).map(|_| Stream::None).collect();
    let mut held: Vec<(usize, ACircuit)> = vec![];
    let mut log = vec![];
    let mut scratch = String::with_capacity(texts.iter().map(|t| t.len()).max().unwrap_or(0));
    // rarely, a long history
    if cx.src.chance(1, 1000) {
        let i = cx.src.below(k);
        let times = *cx.src.pick(&[40, 130, 300, 700, 1100, 2100]);
        cx.count("after many calls");
        log.push(format!("{}:{} times", i, times));
        for _ in 0..times {
            let _ = parse(&texts[i]).map(|c| c.to_string());
        }
    }
    if cx.src.chance(1, 5000) {
        log.push(wear(cx));
    }
    let steps = cx.src.range(4, 24);
    for _ in 0..steps {
        let i = cx.src.below(k);
        let act = cx.src.below(12);
        log.push(format!("{}:{}", i, act));
        let show = |log: &[String]| format!("steps {}\n{}", log.join(" "), all);
        let mut got: Option<ACircuit> = None;
        match act {
            // parse at once
            0..=3 => {
                let r = match act {
                    0 | 1 => parse(&texts[i]),
                    // in the same memory as other texts
                    2 => {
                        scratch.clear();
                        scratch.push_str(&texts[i]);
                        parse(&scratch)
                    }
                    _ => ACircuit::from_read(texts[i].as_bytes()),
                };
                match (r, &jobs[i].want) {
                    (Ok(c), Some(_)) => got = Some(c),
                    (Err(e), None) => {
                        let e = e.to_string();
                        if let Some(x) = &jobs[i].error {
                            ensure!(*x == e, show(&log), "error for text {} was {:?} and then {:?}", i, x, e);
                        }
                        jobs[i].error = Some(e);
                    }
                    (Ok(_), None) => return fail(format!("faulty text {} accepted", i), show(&log)),
                    (Err(e), Some(_)) => return fail(format!("text {} rejected: {}", i, e), show(&log)),
                }
            }
            // step through the modules
            4..=6 => match std::mem::replace(&mut streams[i], Stream::None) {
                Stream::None => {
                    if let Ok(c) = circuit::consumer(&texts[i]) {
                        streams[i] = Stream::Open(c, 0);
                    }
                }
                Stream::Open(mut c, at) => {
                    match (c.next(), jobs[i].want.is_some()) {
                        (Some(Ok(m)), true) => {
                            ensure!(
                                jobs[i].order.get(at) == Some(m.name()),
                                show(&log),
                                "module {} of text {} is {:?}, not {:?}",
                                at,
                                i,
                                m.name(),
                                jobs[i].order.get(at)
                            );
                            streams[i] = Stream::Open(c, at + 1);
                        }
                        (None, true) => {
                            ensure!(at == jobs[i].order.len(), show(&log), "text {} yields {} modules, not {}", i, at, jobs[i].order.len());
                            got = c.circuit();
                            ensure!(got.is_some(), show(&log), "no circuit after all modules of text {}", i);
                        }
                        (Some(Err(e)), true) => return fail(format!("text {} rejected when streamed: {}", i, e), show(&log)),
                        (Some(Ok(_)), false) => streams[i] = Stream::Open(c, at + 1),
                        (_, false) => (),
                    }
                }
            },
            // finish a stream
            7 => match std::mem::replace(&mut streams[i], Stream::None) {
                Stream::Open(c, _) => match (c.into_circuit(), jobs[i].want.is_some()) {
                    (Ok(c), true) => got = Some(c),
                    (Err(_), false) => (),
                    (Ok(_), false) => return fail(format!("faulty text {} accepted when streamed", i), show(&log)),
                    (Err(e), true) => return fail(format!("text {} rejected when streamed: {}", i, e), show(&log)),
                },
                Stream::None => (),
            },
            // forget circuits
            8 => {
                if !held.is_empty() {
                    let j = cx.src.below(held.len());
                    held.swap_remove(j);
                }
            }
            // something which does not come to its end
            10 => {
                let room = cx.src.below(texts[i].len() + 1);
                let burst = cx.src.chance(1, 4);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ACircuit::from_read(Broken { data: &texts[i].as_bytes()[..room], burst })));
                ensure!(!matches!(r, Ok(Ok(_))), show(&log), "circuit from a stream which failed after {} bytes of text {}", room, i);
                cx.count("with a failing stream");
            }
            11 => {
                if !held.is_empty() {
                    let j = cx.src.below(held.len());
                    let c = &held[j].1;
                    cut_short(cx, c, &|| show(&log))?;
                    cx.count("with a failing writer");
                }
            }
            // look again at a circuit held
            _ => {
                if !held.is_empty() {
                    let j = cx.src.below(held.len());
                    let (i, c) = held.swap_remove(j);
                    judge(&mut jobs[i], i, &c, &|| show(&log))?;
                    held.push((i, c));
                }
            }
        }
        if let Some(c) = got {
            cx.checks(1);
            judge(&mut jobs[i], i, &c, &|| show(&log))?;
            if cx.src.coin() {
                held.push((i, c));
            }
        }
    }
    for (i, c) in &held {
        judge(&mut jobs[*i], *i, c, &|| format!("steps {}\n{}", log.join(" "), all))?;
    }
    cx.checks(held.len() as u64);
    if cx.src.chance(1, 3) {
        copied_streams(cx, &models[0])?;
        copied_contexts(cx)?;
    }
    if cx.src.chance(1, 4) {
        in_place(cx, &models[0])?;
    }
    if cx.src.chance(1, 30) {
        at_the_same_time(cx, &jobs)?;
    }
    if models.iter().any(|m| *m != models[0]) {
        cx.nontrivial(&models);
    }
    if jobs.iter().any(|j| j.want.is_none()) {
        cx.count("with faulty texts");
    }
    cx.sample(|| format!("steps {}\n{}", log.join(" "), all));
    Ok(())
}

/// A stream which fails, or panics, at its end
struct Broken<'a> {
    data: &'a [u8],
    burst: bool,
}

impl std::io::Read for Broken<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() {
            if self.burst {
                std::panic::resume_unwind(Box::new(()));
            }
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        std::io::Read::read(&mut self.data, buf)
    }
}

/// A writer which fails, or panics, when it is full
struct Full {
    text: String,
    room: usize,
    burst: bool,
}

impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.text.len() + s.len() > self.room {
            if self.burst {
                std::panic::resume_unwind(Box::new(()));
            }
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Print something for which there is not enough room
fn cut_short(cx: &mut Cx, c: &ACircuit, show: &dyn Fn() -> String) -> Res {
    use std::fmt::Write;

    let exprs = Nodes::of(c).exprs;
    let e = if !exprs.is_empty() && cx.src.chance(1, 3) { Some(exprs[cx.src.below(exprs.len())].clone()) } else { None };
    let whole = match &e {
        Some(e) => e.to_string(),
        None => c.to_string(),
    };
    let room = cx.src.below(whole.len());
    let mut w = Full { text: String::new(), room, burst: cx.src.chance(1, 4) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &e {
        Some(e) => write!(w, "{}", e),
        None => write!(w, "{}", c),
    }));
    ensure!(!matches!(r, Ok(Ok(_))), show(), "printing {:?} succeeds with room for {} bytes only", whole, room);
    ensure!(whole.starts_with(&w.text), show(), "printing\n{}\nwith room for {} bytes only starts with\n{}", whole, room, w.text);
    let again = match &e {
        Some(e) => e.to_string(),
        None => c.to_string(),
    };
    ensure!(again == whole, show(), "printed as\n{}\nand, after there was room for {} bytes only, as\n{}", whole, room, again);
    cx.checks(3);
    Ok(())
}

/// Parse one deeply nested text, with or without an error inside, many times
fn wear(cx: &mut Cx) -> String {
    let depth = *cx.src.pick(&[3, 20, 70, 150]);
    let bad = cx.src.chance(2, 3);
    let what = cx.src.below(5);
    let nest = |a: &str, b: &str, c: &str| format!("{}{}{}", a.repeat(depth), b, c.repeat(depth));
    let line = match what {
        0 => format!("node n = {}", nest("not(", if bad { "x" } else { "UInt(1)" }, ")")),
        1 => format!("node n = {}", nest("mux(i, i, ", if bad { "add(i)" } else { "i" }, ")")),
        2 => format!("node n = {}", nest("v[", if bad { "i.?" } else { "i" }, "]")),
        3 => format!("wire w: {}", nest("{f: ", if bad { "UInt<>" } else { "UInt" }, "}")),
        _ => (0..depth).map(|i| format!("{}when i:\n    ", " ".repeat(i))).collect::<String>() + &" ".repeat(depth) + if bad { "node" } else { "skip" },
    };
    let text = format!("circuit m:\n  module m:\n    input i: UInt\n    input v: UInt[4]\n    {}\n", line);
    let times = 400_000 / depth;
    cx.count("after many deep calls");
    for _ in 0..times {
        let _ = parse(&text);
    }
    format!("{} times {:?}", times, text)
}

fn judge(j: &mut Job, i: usize, c: &ACircuit, show: &dyn Fn() -> String) -> Res {
    let got = match lift(c) {
        Ok(v) => v,
        Err(e) => return fail(format!("circuit of text {} is inconsistent: {}", i, e), show()),
    };
    let want = match &j.want {
        Some(w) => w,
        None => return Ok(()),
    };
    if got != *want {
        return fail(format!("circuit of text {} differs from what the text says: {}", i, diff(want, &got)), show());
    }
    let p = c.to_string();
    match &j.printed {
        Some(x) => ensure!(same_lines(x, &p), show(), "circuit of text {} was printed as\n{}\nand then as\n{}", i, x, p),
        None => j.printed = Some(p),
    }
    let f = facts(c);
    match &j.facts {
        Some(x) => ensure!(*x == f, show(), "types, flow and references in the circuit of text {} changed: {}", i, diff(x, &f)),
        None => j.facts = Some(f),
    }
    Ok(())
}

/// Texts which differ in a character or two, one after the other in the same
/// place
fn in_place(cx: &mut Cx, c: &Circuit) -> Res {
    let c = c.clone().normalized();
    let mut buf = text_of(&mut cx.src, &c, PLAIN).1.text;
    if cx.src.chance(1, 4) {
        if let Some(Module { kind: Mk::Reg(_), .. }) = c.mods.last() {
            let line = buf.rsplit('\n').find(|l| !l.is_empty()).unwrap_or("");
            let indent = line.len() - line.trim_start_matches(' ').len();
            // the module's line may be its only one
            let by = if line.trim_start().starts_with("module") { indent + 2 } else { indent };
            let pad = format!("{}skip\n", " ".repeat(by));
            buf.push_str(&pad.repeat(*cx.src.pick(&[10, 100, 500])));
            cx.count("with a long text edited in place");
        }
    }
    let at: Vec<usize> = buf.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric() || "<>[](){}\".".contains(*c)).map(|(i, _)| i).collect();
    if at.is_empty() {
        return Ok(());
    }
    let digits: Vec<usize> = at.iter().copied().filter(|i| buf.as_bytes()[*i].is_ascii_digit()).collect();
    let mut log: Vec<(usize, String)> = vec![];
    for _ in 0..cx.src.range(2, 8) {
        let got = parse(&buf).map_err(|e| e.to_string());
        let show = format!("after {:?}\n{}", log, buf);
        match (&got, read(&buf)) {
            (Ok(g), Read::Ok { c, .. }) => {
                let v = lift(g).or_else(|e| fail(format!("circuit is inconsistent: {}", e), show.clone()))?;
                let want = c.reachable();
                ensure!(v == want, show, "text edited in place: circuit differs from what the text says: {}", diff(&want, &v));
            }
            (Err(e), Read::Ok { soft: false, .. }) => return fail(format!("text edited in place rejected: {}", e), show),
            (Ok(_), Read::Reject(line, why)) => return fail(format!("text edited in place accepted in spite of line {}: {}", line, why), show),
            _ => (),
        }
        cx.checks(1);
        let (i, new) = if !digits.is_empty() && cx.src.chance(3, 4) {
            (digits[cx.src.below(digits.len())], b'0' + cx.src.below(10) as u8)
        } else {
            let i = at[cx.src.below(at.len())];
            (i, buf.as_bytes()[at[cx.src.below(at.len())]])
        };
        if log.len() > 1 && cx.src.coin() {
            // take the last change back
            let (i, old): (usize, String) = log[log.len() - 1].clone();
            buf.replace_range(i..i + 1, &old);
        }
        log.push((i, buf[i..i + 1].to_string()));
        buf.replace_range(i..i + 1, std::str::from_utf8(&[new]).unwrap());
    }
    Ok(())
}

/// Parse and print the texts in several threads
fn at_the_same_time(cx: &mut Cx, jobs: &[Job]) -> Res {
    cx.count("in several threads");
    let start = std::sync::Barrier::new(jobs.len());
    let start = &start;
    let all: Vec<Vec<Result<(View, String), String>>> = std::thread::scope(|t| {
        let v: Vec<_> = jobs
            .iter()
            .map(|j| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(t, move || {
                        start.wait();
                        (0..3)
                            .map(|_| {
                                let c = parse(&j.text).map_err(|e| e.to_string())?;
                                Ok((lift(&c).map_err(|e| format!("inconsistent: {}", e))?, c.to_string()))
                            })
                            .collect::<Vec<_>>()
                    })
                    .expect("HARNESS: no thread")
            })
            .collect();
        v.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![Err("panic".into())])).collect()
    });
    for (i, (j, v)) in jobs.iter().zip(all).enumerate() {
        for r in v {
            cx.checks(1);
            let ok = match (&r, &j.want) {
                (Ok((got, text)), Some(w)) => got == w && j.printed.as_ref().map_or(true, |p| same_lines(p, text)),
                (Err(e), None) => j.error.as_ref().map_or(true, |x| x == e),
                _ => false,
            };
            ensure!(ok, j.text.clone(), "text {} parsed in a thread, at the same time as others, yields something else: {:?}", i, r);
        }
    }
    Ok(())
}

/// A copy of a module stream continues from where it was made
fn copied_streams(cx: &mut Cx, c: &Circuit) -> Res {
    let mods = b_modules(c);
    let v: Vec<Result<Arc<AModule>, String>> = c.mods.iter().map(|m| Ok(mods[&m.name].clone())).collect();
    let mut a = ModuleConsumer::new(c.top.to_string(), c.info.clone(), v.into_iter());
    let at = cx.src.range(0, c.mods.len());
    for _ in 0..at {
        a.next();
    }
    let mut b = a.clone();
    let ahead = cx.src.range(0, c.mods.len() + 1);
    let first: Vec<_> = (0..ahead).map_while(|_| b.next()).map(|m| m.map(|m| m.name().clone())).collect();
    let second: Vec<_> = (0..ahead).map_while(|_| a.next()).map(|m| m.map(|m| m.name().clone())).collect();
    let rest: Vec<Result<N, String>> = c.mods.iter().skip(at).take(ahead).map(|m| Ok(m.name.clone())).collect();
    cx.checks(2);
    ensure!(first == rest && second == rest, format!("{:?}", c), "a stream and its copy yield {:?} and {:?} instead of {:?}", second, first, rest);
    ensure!(
        a.circuit().map(|c| lift(&c)) == b.circuit().map(|c| lift(&c)),
        format!("{:?}", c),
        "a stream and its copy differ in the circuit"
    );
    Ok(())
}

/// Additions to a copy of a context do not show in the original and vice versa
fn copied_contexts(cx: &mut Cx) -> Res {
    let wire = |x: &str, w: u16| Arc::new(Entity::Wire { name: x.into(), r#type: b_ty(&Ty::G(Gt::UInt(Some(w)))) });
    let names = ["a", "b", "c"];
    let mut a = TopContext::new(|_: &str| None);
    let mut seen: [[Option<u16>; 3]; 2] = [[None; 3]; 2];
    for w in 0..cx.src.range(0, 3) as u16 {
        let i = cx.src.below(3);
        a.add_entity(wire(names[i], w));
        seen[0][i] = Some(w);
    }
    let mut b = a.clone();
    seen[1] = seen[0];
    for w in 10..10 + cx.src.range(0, 4) as u16 {
        let i = cx.src.below(3);
        let which = cx.src.below(2);
        if which == 0 { &mut a } else { &mut b }.add_entity(wire(names[i], w));
        seen[which][i] = Some(w);
        for (c, s) in [(&a, &seen[0]), (&b, &seen[1])] {
            for (x, want) in names.iter().zip(s) {
                let got = c.entity(x).and_then(|e| e.r#type().ok()).map(|t| l_ty(&t));
                let want = want.map(|w| Ty::G(Gt::UInt(Some(w))));
                ensure!(got == want, "", "lookup of {:?} in a context or its copy yields {:?} instead of {:?}", x, got, want);
            }
        }
    }
    cx.checks(1);
    Ok(())
}
