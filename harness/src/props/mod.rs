//! One check per property

pub mod text;
pub mod robust;
pub mod scope;
pub mod types;
pub mod tree;
pub mod values;
pub mod relate;

use crate::engine::Prop;

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(text::PROPS.iter());
    v.extend(robust::PROPS.iter());
    v.extend(scope::PROPS.iter());
    v.extend(types::PROPS.iter());
    v.extend(tree::PROPS.iter());
    v.extend(values::PROPS.iter());
    v.extend(relate::PROPS.iter());
    v.sort_by_key(|p| p.id);
    v
}

use crate::conv;
use crate::model::*;

/// Parse a text and lift the result
pub fn read_back(text: &str) -> Result<View, String> {
    let c = firrtl_ast::circuit::parse(text).map_err(|e| format!("rejected: {}", e))?;
    conv::lift(&c).map_err(|e| format!("inconsistent circuit: {}", e))
}

pub fn count_feats(cx: &mut crate::engine::Cx, c: &Circuit) -> crate::gen::Feat {
    let f = crate::gen::feats(c);
    for (k, v) in [
        ("with conditionals", f.whens),
        ("with nested conditionals", f.nested),
        ("with else", f.elses),
        ("with else-when", f.else_whens),
        ("with instances", f.insts),
        ("with modules instantiated repeatedly", f.diamonds),
        ("with memories or memory ports", f.mems),
        ("with infos", f.infos),
        ("with repeated declarations of one name", f.shadows),
        ("with external modules", f.ext),
    ] {
        if v > 0 {
            cx.count(k)
        }
    }
    cx.add("statements", f.stmts as u64);
    f
}

/// Rule: a circuit is non-trivial if it has statements or several modules
pub fn circuit_nontrivial(cx: &mut crate::engine::Cx, c: &Circuit) {
    let f = count_feats(cx, c);
    if f.stmts >= 2 || c.mods.len() > 1 {
        cx.nontrivial(c);
    }
}
