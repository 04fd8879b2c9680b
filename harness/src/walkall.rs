//! Exercise everything the library offers on a parsed circuit

use std::collections::HashMap;
use std::sync::Arc;

use firrtl_ast::expr::{Expression, Reference};
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::Module;
use firrtl_ast::stmt::{Entity, Kind as AK, Statement};
use firrtl_ast::types::{Combinator, GroundType, MaxWidth, OrientedType, Type, TypeExt, Typed};
use firrtl_ast::Named;

use crate::conv::AEx;

const LIMIT: u64 = 20_000;

#[derive(Default)]
pub struct Walk {
    costs: HashMap<usize, u64>,
    types: Vec<Type>,
    pub exprs: u64,
    pub typed: u64,
    pub skipped: u64,
}

impl Walk {
    /// Number of nodes visited by a recursive function looking through nodes
    fn cost(&mut self, e: &AEx) -> u64 {
        if let Expression::Reference(r) = e {
            return 1 + self.ent_cost(r);
        }
        let mut c = 1u64;
        for s in subs(e) {
            c = c.saturating_add(self.cost(&s));
        }
        // field selection computes types repeatedly
        if matches!(e, Expression::SubField { .. }) {
            c = c.saturating_mul(2)
        }
        c
    }
    fn ent_cost(&mut self, r: &Arc<Entity>) -> u64 {
        let k = Arc::as_ptr(r) as usize;
        if let Some(c) = self.costs.get(&k) {
            return *c;
        }
        let c = match r.as_ref() {
            Entity::Node { value, .. } => self.cost(value),
            _ => 1,
        };
        self.costs.insert(k, c);
        c
    }

    fn ty(&mut self, t: &Type) {
        let o = OrientedType::from(t);
        let _ = (o.is_passive(), o.ground_type().is_some(), o.flipped());
        let _ = (t.is_passive(), t.ground_type().is_some(), t.to_string());
        if let Some(f) = t.fields() {
            for f in f {
                let _ = (f.name(), f.orientation(), f.r#type().to_string());
            }
        }
        if let Some((b, _)) = t.vector() {
            let _ = b.to_string();
        }
        if let Some(g) = t.ground_type() {
            let _ = (g.width(), GroundType::with_width(&g, None));
        }
        for other in self.types.iter() {
            let _ = TypeExt::eq(t, other);
            let _ = t.weak_eq(other);
            let _: Result<Type, _> = MaxWidth::new().combine(t, other);
        }
        if self.types.len() < 6 {
            self.types.push(t.clone())
        }
    }

    pub fn ex(&mut self, e: &AEx) {
        self.exprs += 1;
        let _ = e.to_string();
        let _ = e.references().count();
        if self.cost(e) <= LIMIT {
            self.typed += 1;
            if let Ok(t) = e.r#type() {
                self.ty(&t)
            }
            if let Ok(f) = e.flow() {
                let _ = (f.is_source(), f.is_sink());
            }
        } else {
            self.skipped += 1;
        }
        for s in subs(e) {
            self.ex(&s)
        }
    }

    fn ent(&mut self, e: &Arc<Entity>) {
        let _ = (e.name().len(), e.is_declarable(), e.flow());
        if self.ent_cost(e) <= LIMIT {
            if let Ok(t) = e.r#type() {
                self.ty(&t)
            }
        }
        match e.as_ref() {
            Entity::Register(r) => {
                self.ex(r.clock());
                r.reset_signal().map(|e| self.ex(e));
                r.reset_value().map(|e| self.ex(e));
            }
            Entity::Node { value, .. } => self.ex(value),
            Entity::SimpleMemPort(p) => {
                self.ex(p.address());
                self.ex(p.clock());
                let _ = p.memory().to_string();
            }
            Entity::Instance(i) => {
                let _ = i.module().name();
            }
            _ => (),
        }
    }

    pub fn stmt(&mut self, s: &Statement) {
        let _ = s.info();
        let _ = (s.declarations().count(), s.instantiations().count());
        match s.kind() {
            AK::Connection { from, to } | AK::PartialConnection { from, to } => {
                self.ex(from);
                self.ex(to);
            }
            AK::Empty => (),
            AK::Declaration(e) => self.ent(e),
            AK::SimpleMemDecl(m) => {
                let _ = (m.r#type().is_ok(), m.to_string());
            }
            AK::Invalidate(e) => self.ex(e),
            AK::Attach(v) => v.iter().for_each(|e| self.ex(e)),
            AK::Conditional { cond, when, r#else } => {
                self.ex(cond);
                when.iter().for_each(|s| self.stmt(s));
                r#else.iter().for_each(|s| self.stmt(s));
            }
            AK::Stop { clock, cond, .. } => {
                self.ex(clock);
                self.ex(cond);
            }
            AK::Print { clock, cond, msg, .. } => {
                self.ex(clock);
                self.ex(cond);
                for m in msg {
                    if let firrtl_ast::stmt::print::PrintElement::Value(e, _) = m {
                        self.ex(e)
                    }
                }
            }
        }
    }

    pub fn module(&mut self, m: &Module) {
        let _ = (m.info(), m.referenced_modules().count(), m.kind().keyword());
        for p in m.ports() {
            let _ = (m.port_by_name(p.name()).is_some(), p.to_string());
            self.ty(p.r#type());
        }
        m.statements().iter().for_each(|s| self.stmt(s));
    }
}

fn subs(e: &AEx) -> Vec<Arc<AEx>> {
    match e {
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => vec![base.clone()],
        Expression::SubAccess { base, index } => vec![base.clone(), index.clone()],
        Expression::Mux { sel, a, b } => vec![sel.clone(), a.clone(), b.clone()],
        Expression::ValidIf { sel, value } => vec![sel.clone(), value.clone()],
        Expression::PrimitiveOp(op) => op.sub_exprs().into_iter().cloned().collect(),
        _ => vec![],
    }
}
