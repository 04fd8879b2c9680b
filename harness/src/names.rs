//! Renaming of everything in a circuit to names which are easily confused:
//! equal in length, in their ends, in their letters, but for case ...

use crate::model::*;
use crate::tape::Src;
use std::collections::{HashMap, HashSet};

/// The fields of memories' types are not for us to choose
const FIXED: &[&str] = &["addr", "en", "clk", "data", "mask", "wmode", "rdata", "wdata", "wmask"];

const BITS: u32 = 12;

#[derive(Clone, Copy)]
enum Family {
    /// the same but for some letters, starting at this position of so many
    Middle(usize, usize),
    Anagram,
    Case,
    Marks,
    Accents,
    Zeros,
}

struct Names {
    family: Family,
    ids: HashMap<N, u32>,
    used: HashSet<u32>,
}

impl Names {
    fn name(&mut self, x: &N) -> N {
        if FIXED.contains(&&**x) {
            return x.clone();
        }
        let id = match self.ids.get(x) {
            Some(i) => *i,
            None => {
                // depends on the name alone, so that variants of a circuit get the same names
                let mut h = 0xcbf2_9ce4_8422_2325u64;
                for b in x.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
                }
                let mut i = ((h >> 20) ^ h) as u32 % (1 << BITS);
                if self.used.len() + 1 >= 1 << BITS {
                    // no more of them
                    return x.clone();
                }
                while !self.used.insert(i) {
                    i = (i + 1) % (1 << BITS);
                }
                self.ids.insert(x.clone(), i);
                i
            }
        };
        n(self.family.of(id))
    }
}

impl Family {
    fn of(self, id: u32) -> String {
        let bit = |i: u32| id >> i & 1 == 1;
        match self {
            Family::Middle(at, len) => {
                let base = "_instance_of_the_queue_module_in_the_second_stage";
                let mut v: Vec<char> = base.chars().cycle().take(len).collect();
                for k in 0..3 {
                    v[at + k] = (b'a' + (id >> (4 * k) & 15) as u8) as char;
                }
                v.into_iter().collect()
            }
            Family::Anagram => {
                let mut left: Vec<char> = "abcdefg".chars().collect();
                let (mut id, mut r) = (id as usize, String::new());
                while !left.is_empty() {
                    let k = left.len();
                    r.push(left.remove(id % k));
                    id /= k;
                }
                r
            }
            Family::Case => "datapathunit"
                .chars()
                .enumerate()
                .map(|(i, c)| if bit(i as u32) { c.to_ascii_uppercase() } else { c })
                .collect(),
            Family::Marks => format!("x{}", (0..BITS).map(|i| if bit(i) { '_' } else { '$' }).collect::<String>()),
            Family::Accents => (0..BITS).map(|i| if bit(i) { 'é' } else { 'è' }).collect(),
            Family::Zeros => format!("r{}{}", "0".repeat((id / 64) as usize), id % 64 + 1),
        }
    }
}

pub fn disguise(s: &mut Src, c: &mut Circuit) {
    let family = match s.below(8) {
        0..=2 => {
            let len = *s.pick(&[8, 12, 16, 17, 24, 32, 33, 40, 64, 65, 130, 256, 300]);
            let at = s.range(1, len - 3);
            Family::Middle(at, len)
        }
        3 => Family::Anagram,
        4 => Family::Case,
        5 => Family::Marks,
        6 => Family::Accents,
        _ => Family::Zeros,
    };
    let mut m = Names { family, ids: HashMap::new(), used: HashSet::new() };
    rename(c, &mut |x| *x = m.name(x));
}

type F<'a> = dyn FnMut(&mut N) + 'a;

pub fn rename(c: &mut Circuit, f: &mut F) {
    f(&mut c.top);
    for m in &mut c.mods {
        f(&mut m.name);
        for p in &mut m.ports {
            f(&mut p.name);
            ty(&mut p.ty, f);
        }
        match &mut m.kind {
            Mk::Reg(v) => stmts(v, f),
            Mk::Ext { defname, params } => {
                if let Some(x) = defname {
                    f(x)
                }
                *params = std::mem::take(params)
                    .into_iter()
                    .map(|(mut k, v)| {
                        f(&mut k);
                        (k, v)
                    })
                    .collect();
            }
        }
    }
}

fn ty(t: &mut Ty, f: &mut F) {
    match t {
        Ty::G(_) => (),
        Ty::V(t, _) => ty(t, f),
        Ty::B(v) => {
            for x in v {
                f(&mut x.name);
                ty(&mut x.ty, f)
            }
        }
    }
}

fn ex(e: &mut Ex, f: &mut F) {
    match e {
        Ex::U(..) | Ex::S(..) => (),
        Ex::Ref(x) => f(x),
        Ex::Field(b, x) => {
            f(x);
            ex(b, f)
        }
        Ex::Index(b, _) => ex(b, f),
        Ex::Access(a, b) | Ex::ValidIf(a, b) => {
            ex(a, f);
            ex(b, f)
        }
        Ex::Mux(a, b, c) => {
            ex(a, f);
            ex(b, f);
            ex(c, f)
        }
        Ex::Op(_, v, _) => v.iter_mut().for_each(|e| ex(e, f)),
    }
}

fn decl(d: &mut De, f: &mut F) {
    match d {
        De::Wire(x, t) => {
            f(x);
            ty(t, f)
        }
        De::Reg { name, ty: t, clk, reset } => {
            f(name);
            ty(t, f);
            ex(clk, f);
            if let Some((a, b)) = reset {
                ex(a, f);
                ex(b, f)
            }
        }
        De::Node(x, e) => {
            f(x);
            ex(e, f)
        }
        De::Mem(m) => {
            f(&mut m.name);
            ty(&mut m.ty, f);
            m.ports.iter_mut().for_each(|p| f(&mut p.0));
        }
        De::MPort { name, mem, addr, clk, .. } => {
            f(name);
            f(mem);
            ex(addr, f);
            ex(clk, f)
        }
        De::Inst { name, module } => {
            f(name);
            f(module)
        }
    }
}

fn stmts(v: &mut [St], f: &mut F) {
    for s in v {
        match &mut s.k {
            Sk::Connect(a, b) | Sk::Partial(a, b) => {
                ex(a, f);
                ex(b, f)
            }
            Sk::Skip => (),
            Sk::Decl(d) => decl(d, f),
            Sk::SMem(x, t, _) => {
                f(x);
                ty(t, f)
            }
            Sk::Invalid(e) => ex(e, f),
            Sk::Attach(v) => v.iter_mut().for_each(|e| ex(e, f)),
            Sk::When(c, a, b) => {
                ex(c, f);
                stmts(a, f);
                stmts(b, f)
            }
            Sk::Stop { name, clk, cond, .. } => {
                name.iter_mut().for_each(|x| f(x));
                ex(clk, f);
                ex(cond, f)
            }
            Sk::Print { name, clk, cond, msg } => {
                name.iter_mut().for_each(|x| f(x));
                ex(clk, f);
                ex(cond, f);
                for p in msg {
                    if let Pe::Val(e, _) = p {
                        ex(e, f)
                    }
                }
            }
        }
    }
}
