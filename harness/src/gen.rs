//! Generators of model circuits

use num_bigint::{BigInt, BigUint, Sign};
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::model::*;
use crate::oracle;
use crate::tape::Src;

pub const WIDTHS: [u16; 22] = [
    1, 8, 2, 3, 0, 4, 5, 7, 16, 31, 32, 33, 63, 64, 65, 127, 255, 256, 32767, 32768, 65534, 65535,
];
pub const POINTS: [i16; 19] = [
    0, 1, 4, -1, 2, 8, -3, 7, 15, -16, 31, 64, 255, -256, 1000, 32767, -32768, 32766, -32767,
];

pub const KEYWORDISH: &[&str] = &[
    "circuit", "module", "extmodule", "parameter", "defname", "input", "output", "wire", "reg", "node", "mem", "inst",
    "of", "is", "invalid", "when", "skip", "stop", "printf", "attach", "cmem", "smem", "mport", "read", "write",
    "rdwr", "infer", "with", "reset", "flip", "old", "new", "undefined", "mux", "validif", "UInt", "SInt", "Fixed",
    "Clock", "Reset", "AsyncReset", "Analog", "add", "sub", "mul", "div", "rem", "lt", "leq", "gt", "geq", "eq", "neq",
    "pad", "asUInt", "asSInt", "asFixed", "asClock", "asAsyncReset", "shl", "shr", "dshl", "dshr", "cvt", "neg", "not",
    "and", "or", "xor", "andr", "orr", "xorr", "cat", "bits", "head", "tail", "incp", "decp", "setp", "reader",
    "writer", "readwriter", "depth", "data", "addr", "en", "clk", "mask", "else_", "_else", "elsewhen", "skip_",
    "UInt8", "muxx", "isinvalid", "whenx", "wire1", "_", "$", "__", "$0", "b0", "h", "o7", "E", "e5", "inf", "NaN",
];

#[derive(Clone)]
pub struct Opts {
    /// number of statements per module, roughly
    pub size: usize,
    /// names other than plain ASCII ones
    pub weird_names: bool,
    pub infos: bool,
    /// percentage of expressions built regardless of types
    pub untyped: usize,
    /// boundary widths rather than moderate ones
    pub wide: bool,
    pub depth: usize,
    /// info strings and literals of any content
    pub weird_strings: bool,
    pub shadow: bool,
    pub max_mods: usize,
    pub unreachable_mods: bool,
    /// literals of a width smaller than their value needs
    pub narrow: bool,
    /// bundles with several fields of one name
    pub twins: bool,
}

impl Opts {
    pub fn full(size: usize) -> Self {
        Opts {
            size,
            weird_names: true,
            infos: true,
            untyped: 15,
            wide: true,
            depth: 3,
            weird_strings: true,
            shadow: true,
            max_mods: 5,
            unreachable_mods: false,
            narrow: false,
            twins: true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: N,
    pub ty: Option<Ty>,
    pub cost: u64,
}

#[derive(Clone, Default)]
pub struct Scope {
    pub vars: Vec<Var>,
    pub smems: Vec<(N, Ty)>,
    pub mods: Vec<(N, Ty)>,
}

impl Scope {
    pub fn get(&self, x: &str) -> Option<&Var> {
        self.vars.iter().find(|v| &*v.name == x)
    }
    pub fn add(&mut self, name: N, ty: Option<Ty>, cost: u64) {
        self.vars.retain(|v| v.name != name);
        self.vars.push(Var { name, ty, cost });
    }
    pub fn add_smem(&mut self, name: N, ty: Ty) {
        self.smems.retain(|v| v.0 != name);
        self.smems.push((name, ty));
    }
    pub fn ty_of(&self, e: &Ex) -> Option<Ty> {
        oracle::type_of(e, &|x| self.get(x).and_then(|v| v.ty.clone()))
    }
    pub fn cost(&self, e: &Ex) -> u64 {
        let mut r = vec![];
        e.refs(&mut r);
        e.size() as u64 + r.iter().map(|x| self.get(x).map(|v| v.cost).unwrap_or(0)).sum::<u64>()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    U,
    S,
    F,
    Clock,
    Async,
}

pub fn is_id_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

const ID_CHARS: &[char] = &[
    'a', 'b', 'x', 'y', 'Z', '_', '$', '0', '1', '9', 'e', 'E', 'ä', 'ß', 'λ', 'Ж', '名', '\u{0661}', '²', '½', 'ª', '𝒳', '\u{1F88}',
];

const MEAN_CHARS: &[char] = &[
    ' ', '"', '\'', ']', '[', '\\', '%', '\n', '\t', ';', '@', 'n', 't', 'b', 'd', 'x', 'c', '0', '\r', '\0', '\u{1}', '\u{7f}',
    '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', 'ä', '名', '𝒳', '\u{301}', '(', ')', ':', ',', '{', '}', '<', '=', '\u{b}', '\u{c}', '\u{10ffff}',
];

pub fn string(s: &mut Src, weird: bool) -> String {
    if !weird {
        return (*s.pick(&["a", "", "b.scala 3:4", "x y", "info"])).into();
    }
    if s.chance(1, 60) {
        return runs(s);
    }
    match s.below(6) {
        0 => (*s.pick(&[
            "a", "", "b.scala 3:4", "]", "\\", "\\]", "\\n", "\n", "\t", "%", "%%", "%d", "%b\\", "\"", "'", "\\\"", " ", "  ", ";", "; x",
            " lead", "trail ", "@[a]", "\\\\", "a\\", "\r", "\r\n", "\n\n", "]]", "x]y", "\\t\t", "%5", "100%", "%\\%",
        ]))
        .into(),
        1 => {
            let k = s.range(0, 12);
            (0..k).map(|_| *s.pick(MEAN_CHARS)).collect()
        }
        2 => {
            let k = s.range(0, 8);
            (0..k)
                .map(|_| loop {
                    if let Some(c) = char::from_u32(s.below(0x110000) as u32) {
                        break c;
                    }
                })
                .collect()
        }
        3 => {
            let k = s.range(0, 40);
            (0..k).map(|_| (0x20 + s.below(0x5f)) as u8 as char).collect()
        }
        4 => {
            let k = s.range(1, 4);
            (0..k).map(|_| *s.pick(&["\\", "]", "\"", "'", "%", "\n", "\t", "n", "t"])).collect::<Vec<_>>().concat()
        }
        _ => {
            let k = s.range(1, 6);
            (0..k)
                .map(|_| (*s.pick(&["word", " ", "@[", "]", "%c", "%x", "\\n", "\\", "é", "File.scala", ":", "12", ";"])).to_string())
                .collect::<Vec<_>>()
                .concat()
        }
    }
}

/// Few runs of equal characters, some of them of a length close to limits
fn runs(s: &mut Src) -> String {
    let mut r = String::new();
    for _ in 0..s.range(1, 4) {
        let c = *s.pick(&['a', ' ', '0', '%', '\\', '"', '\'', ']', '\n', '\t', 'é', '名', '\u{10ffff}', ';', '@', '\r']);
        let k = if s.chance(2, 3) { s.range(1, 3) } else { *s.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024]) };
        r.extend(std::iter::repeat(c).take(k));
    }
    r
}

/// A name which differs only slightly
pub fn near(s: &mut Src, x: &str) -> String {
    let mut v: Vec<char> = x.chars().collect();
    let i = if v.is_empty() { 0 } else { s.below(v.len()) };
    match s.below(9) {
        0 if !v.is_empty() => {
            let c = v[i];
            v[i] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }
        }
        1 => v.push(*s.pick(ID_CHARS)),
        2 if v.len() > 1 => {
            v.pop();
        }
        3 if v.len() > 1 => {
            v.remove(0);
        }
        4 => v.insert(0, '0'),
        5 => v.insert(0, '_'),
        6 if !v.is_empty() => v.insert(i, v[i]),
        7 if !v.is_empty() => v[i] = *s.pick(ID_CHARS),
        _ => v.push('_'),
    }
    v.into_iter().collect()
}

/// The same, an identifier
pub fn near_ident(s: &mut Src, x: &str) -> String {
    let r = near(s, x);
    match r.chars().next() {
        Some(c) if !c.is_numeric() => r,
        _ => format!("_{}", r),
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    ctr: usize,
    /// one dimension of the case may be far larger than usual
    pub big: Big,
    /// pending depth of a chain of branches
    deep: usize,
    /// names and texts used so far
    seen: Vec<String>,
}

/// Dimensions in which a case may be large
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    No,
    Ports,
    Fields,
    Stmts,
    Block,
    Msg,
    Attach,
    MemPorts,
    Params,
    Mods,
    Insts,
    Name,
    Text,
    WhenDepth,
    ExDepth,
    TyDepth,
    ElseWhen,
    Lit,
}

pub const BIGS: [Big; 17] = [
    Big::Ports,
    Big::Fields,
    Big::Stmts,
    Big::Block,
    Big::Msg,
    Big::Attach,
    Big::MemPorts,
    Big::Params,
    Big::Mods,
    Big::Insts,
    Big::Name,
    Big::Text,
    Big::WhenDepth,
    Big::ExDepth,
    Big::TyDepth,
    Big::ElseWhen,
    Big::Lit,
];

pub const MAX_COST: u64 = 600;

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, o: Opts) -> Self {
        let big = if s.chance(1, 24) { *s.pick(&BIGS) } else { Big::No };
        Gen { s, o, ctr: 0, big, deep: 0, seen: vec![] }
    }

    /// `usual`, or a large number if this dimension is to be large; that
    /// happens about once or twice per case
    fn big(&mut self, dim: Big, usual: usize, huge: usize) -> usize {
        if self.big != dim || self.s.chance(1, 3) {
            return usual;
        }
        if self.s.coin() {
            self.big = Big::No;
        }
        let h = if self.s.chance(1, 4) { huge } else { huge.min(24) };
        self.s.range(usual.min(h), h)
    }

    // ------------------------------------------------------------- names

    pub fn raw_ident(&mut self) -> String {
        let k = self.s.range(1, 5);
        let k = self.big(Big::Name, k, 300);
        let mut r = String::new();
        for i in 0..k {
            let mut c = *self.s.pick(ID_CHARS);
            if i == 0 && c.is_numeric() {
                c = 'q';
            }
            r.push(c);
        }
        r
    }

    /// A name for something; unique unless stated otherwise by the caller
    pub fn name(&mut self) -> N {
        self.ctr += 1;
        let k = self.ctr;
        let r = if !self.o.weird_names {
            format!("n{}", k)
        } else {
            match if self.big == Big::Name { 2 } else { self.s.weighted(&[6, 3, 1]) } {
                0 => format!("{}{}", self.s.pick(&["n", "x", "_T_", "io", "sig$", "Mod"]), k),
                1 => {
                    let mut r = self.s.pick(KEYWORDISH).to_string();
                    if self.s.chance(1, 4) {
                        r.push(*self.s.pick(ID_CHARS));
                    }
                    r
                }
                _ => self.raw_ident(),
            }
        };
        let r = if r == "else" { "else0" } else { &r };
        self.remember(r);
        n(r)
    }

    fn remember(&mut self, x: &str) {
        if self.seen.len() < 64 && x.len() < 80 {
            self.seen.push(x.into());
        }
    }

    /// A name which does not declare anything: possibly one used elsewhere
    fn label(&mut self) -> N {
        if self.o.weird_names && !self.seen.is_empty() && self.s.chance(1, 5) {
            let x = self.s.pick(&self.seen).clone();
            let ident = |x: &str| x.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$') && !x.starts_with(char::is_numeric) && !x.is_empty();
            if x != "else" && ident(&x) {
                return n(x);
            }
        }
        self.name()
    }

    pub fn fresh(&mut self, used: &mut HashSet<N>) -> N {
        let mut x = self.name();
        while used.contains(&x) {
            x = n(format!("{}_{}", x, self.ctr));
            self.ctr += 1;
        }
        used.insert(x.clone());
        x
    }

    pub fn field_name(&mut self, used: &mut HashSet<N>) -> N {
        let mut x = match self.s.weighted(&[5, 2, 2, 1]) {
            0 => n(self.s.pick(&["a", "b", "c", "d", "data", "valid", "ready", "bits"])),
            1 => n(self.s.below(20).to_string()),
            3 if self.s.coin() => {
                let x = self.s.pick(&["a", "b", "data", "bits", "1", "10"]).to_string();
                n(near(self.s, &x))
            }
            2 if self.o.weird_names => n(self.s.pick(KEYWORDISH)),
            _ => {
                if self.o.weird_names {
                    let r = self.raw_ident();
                    if self.s.chance(1, 4) {
                        n(format!("7{}", r))
                    } else {
                        n(r)
                    }
                } else {
                    n("f")
                }
            }
        };
        while used.contains(&x) {
            self.ctr += 1;
            x = n(format!("{}{}", x, self.ctr));
        }
        used.insert(x.clone());
        x
    }

    pub fn info(&mut self) -> Option<String> {
        if self.o.infos && self.s.chance(1, 3) {
            Some(self.text())
        } else {
            None
        }
    }

    /// Content of an information attribute, message or string parameter
    pub fn text(&mut self) -> String {
        // the same text or name once more
        if self.o.weird_strings && !self.seen.is_empty() && self.s.chance(1, 8) {
            return self.s.pick(&self.seen).clone();
        }
        let r = self.new_text();
        self.remember(&r);
        r
    }

    fn new_text(&mut self) -> String {
        let k = self.big(Big::Text, 1, 300);
        let k = if k > 250 { k * 20 } else { k };
        if k == 1 {
            return string(self.s, self.o.weird_strings);
        }
        let w = self.o.weird_strings;
        let mut r = String::new();
        while r.len() < k {
            r.push_str(&string(self.s, w));
            r.push('z');
        }
        r
    }

    // ------------------------------------------------------------- types

    pub fn width(&mut self) -> Option<u16> {
        if self.s.chance(1, 5) {
            return None;
        }
        Some(if self.o.wide {
            match self.s.below(8) {
                0 => self.s.below(65536) as u16,
                1 | 2 => *self.s.pick(&WIDTHS),
                _ => self.s.range(0, 70) as u16,
            }
        } else {
            self.s.range(1, 64) as u16
        })
    }

    pub fn point(&mut self) -> Option<i16> {
        if self.s.chance(1, 4) {
            return None;
        }
        Some(match self.s.below(8) {
            0 if self.o.wide => (self.s.below(65536) as i64 - 32768) as i16,
            1 if self.o.wide => *self.s.pick(&POINTS),
            _ => self.s.range(0, 40) as i16 - 10,
        })
    }

    pub fn ground(&mut self) -> Gt {
        match self.s.weighted(&[6, 4, 3, 2, 1, 1, 1]) {
            0 => Gt::UInt(self.width()),
            1 => Gt::SInt(self.width()),
            2 => Gt::Fixed(self.width(), self.point()),
            3 => Gt::Clock,
            4 => Gt::Reset,
            5 => Gt::Async,
            _ => Gt::Analog(self.width()),
        }
    }

    pub fn veclen(&mut self) -> u16 {
        match self.s.below(6) {
            0 => *self.s.pick(&[1u16, 0, 2, 65535, 32768, 255, 256]),
            _ => self.s.range(1, 9) as u16,
        }
    }

    pub fn ty(&mut self, d: usize) -> Ty {
        let d = if self.big == Big::TyDepth { self.big(Big::TyDepth, d, 80) } else { d };
        if d > 4 {
            // deep, but narrow
            let t = self.ty(d - 1);
            return match self.s.below(3) {
                0 => Ty::V(Box::new(t), self.veclen()),
                1 => Ty::B(vec![Fl { name: n("x"), flip: self.s.coin(), ty: t }]),
                _ => {
                    let y = Fl { name: n("y"), flip: self.s.coin(), ty: Ty::G(self.ground()) };
                    let mut v = vec![Fl { name: n("x"), flip: self.s.coin(), ty: t }, y];
                    if self.s.coin() {
                        v.swap(0, 1);
                    }
                    Ty::B(v)
                }
            };
        }
        if d == 0 {
            return Ty::G(self.ground());
        }
        match self.s.weighted(&[4, 2, 3]) {
            0 => Ty::G(self.ground()),
            1 => {
                let t = self.ty(d - 1);
                Ty::V(Box::new(t), self.veclen())
            }
            _ => {
                let k = self.s.below(5);
                let k2 = self.big(Big::Fields, k, 300);
                let d = if k2 > 4 { 1 } else { d };
                let k = k2;
                let mut used = HashSet::new();
                let mut v: Vec<Fl> = (0..k)
                    .map(|_| Fl { name: self.field_name(&mut used), flip: self.s.chance(1, 3), ty: self.ty(d - 1) })
                    .collect();
                if k > 1 && self.o.twins && self.s.chance(1, 25) {
                    // the first one of a name counts
                    let (i, j) = (self.s.below(k), self.s.below(k));
                    v[j].name = v[i].name.clone();
                }
                Ty::B(v)
            }
        }
    }

    // -------------------------------------------------------- expressions

    pub fn biguint(&mut self, max_bits: usize) -> BigUint {
        if self.big == Big::Lit {
            let bits = self.big(Big::Lit, 64, 3000).min(max_bits);
            let one = BigUint::from(1u8);
            let v: Vec<u32> = (0..(bits + 31) / 32).map(|_| self.s.below(1 << 32) as u32).collect();
            return BigUint::new(v) & ((one << bits) - 1u8);
        }
        let bits = match self.s.below(6) {
            0 => self.s.range(0, 3),
            1 => *self.s.pick(&[8usize, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
            5 => self.s.range(0, 300),
            _ => self.s.range(0, 70),
        }
        .min(max_bits);
        if bits == 0 {
            return BigUint::from(0u8);
        }
        let one = BigUint::from(1u8);
        match self.s.below(4) {
            0 => (one.clone() << bits) - one,
            1 => one << (bits - 1),
            _ => {
                let words = (bits + 31) / 32;
                let v: Vec<u32> = (0..words).map(|_| self.s.below(1 << 32) as u32).collect();
                BigUint::new(v) & ((one.clone() << bits) - one)
            }
        }
    }

    fn lit_width(&mut self, min: u64) -> u16 {
        let min = min.min(65535) as u16;
        if self.o.narrow && self.s.chance(1, 8) {
            return self.s.range(0, min as usize) as u16;
        }
        match self.s.below(4) {
            0 => min,
            1 if self.o.wide => (*self.s.pick(&WIDTHS)).max(min),
            _ => (min as usize + self.s.range(0, 8)).min(65535) as u16,
        }
    }

    pub fn lit_u(&mut self) -> Ex {
        if self.s.chance(1, 10) {
            return self.tiny();
        }
        let v = self.biguint(3000);
        let w = self.lit_width(v.bits());
        Ex::U(v, w)
    }

    /// One of the constants found all over real circuits
    fn tiny(&mut self) -> Ex {
        let v = self.s.below(2) as u8;
        Ex::U(v.into(), 1)
    }

    pub fn lit_s(&mut self) -> Ex {
        let v = self.biguint(3000);
        let neg = self.s.coin();
        let v = BigInt::from_biguint(if neg && v.bits() > 0 { Sign::Minus } else { Sign::Plus }, v);
        let w = self.lit_width(min_signed_bits(&v));
        Ex::S(v, w)
    }

    /// A selection path into an entity, with its type
    pub fn path(&mut self, sc: &Scope, root: &Var, full: bool) -> (Ex, Option<Ty>) {
        let mut e = Ex::Ref(root.name.clone());
        let mut t = root.ty.clone();
        let mut steps = 0;
        loop {
            if !full && self.s.chance(1, 4) || steps > 50 {
                return (e, t);
            }
            steps += 1;
            match t {
                Some(Ty::B(ref v)) if !v.is_empty() => {
                    let f = self.s.pick(v).clone();
                    e = Ex::Field(Box::new(e), f.name);
                    t = Some(f.ty);
                }
                Some(Ty::V(ref b, len)) => {
                    let b = (**b).clone();
                    if self.s.chance(1, 3) {
                        let i = if self.s.coin() { self.leaf(sc, K::U).0 } else { self.ex(sc, K::U, 1).0 };
                        e = Ex::Access(Box::new(e), Box::new(i));
                    } else {
                        let i = if len == 0 { 0 } else { self.s.below(len as usize) as u16 };
                        e = Ex::Index(Box::new(e), i);
                    }
                    t = Some(b);
                }
                _ => return (e, t),
            }
        }
    }

    fn affordable(&mut self, sc: &Scope) -> Option<Var> {
        for _ in 0..3 {
            if sc.vars.is_empty() {
                return None;
            }
            // recent entities are more interesting
            let k = sc.vars.len();
            let i = if self.s.coin() { k - 1 - self.s.below(k.min(4)) } else { self.s.below(k) };
            if sc.vars[i].cost <= MAX_COST / 4 {
                return Some(sc.vars[i].clone());
            }
        }
        None
    }

    fn kind_of(t: &Ty) -> Option<K> {
        match t {
            Ty::G(Gt::UInt(_)) => Some(K::U),
            Ty::G(Gt::SInt(_)) => Some(K::S),
            Ty::G(Gt::Fixed(..)) => Some(K::F),
            Ty::G(Gt::Clock) => Some(K::Clock),
            Ty::G(Gt::Async) => Some(K::Async),
            _ => None,
        }
    }

    fn op1(op: Op, a: Ex, p: Vec<i64>) -> Ex {
        Ex::Op(op, vec![a], p)
    }

    pub fn cast(&mut self, e: Ex, k: K) -> Ex {
        match k {
            K::U => Self::op1(Op::AsUInt, e, vec![]),
            K::S => Self::op1(Op::AsSInt, e, vec![]),
            K::F => {
                let p = self.point().unwrap_or(0) as i64;
                Self::op1(Op::AsFixed, e, vec![p])
            }
            K::Clock => Self::op1(Op::AsClock, e, vec![]),
            K::Async => Self::op1(Op::AsAsync, e, vec![]),
        }
    }

    fn with_ty(sc: &Scope, e: Ex) -> (Ex, Option<Ty>) {
        let t = sc.ty_of(&e);
        (e, t)
    }

    /// Something without operands of the given kind, or as close as possible
    pub fn leaf(&mut self, sc: &Scope, k: K) -> (Ex, Option<Ty>) {
        if self.s.chance(3, 4) {
            for _ in 0..3 {
                if let Some(v) = self.affordable(sc) {
                    if let Some(Ty::G(_)) | None = v.ty {
                    } else if self.s.chance(1, 2) {
                        continue;
                    }
                    let (e, t) = if matches!(v.ty, Some(Ty::G(_))) { (Ex::Ref(v.name.clone()), v.ty.clone()) } else { self.path0(&v) };
                    match &t {
                        Some(t) if Self::kind_of(t) == Some(k) => return (e, Some(t.clone())),
                        Some(Ty::G(Gt::Analog(_))) | None => (),
                        Some(Ty::G(_)) if self.s.coin() => {
                            let e = self.cast(e, k);
                            return Self::with_ty(sc, e);
                        }
                        _ => (),
                    }
                }
            }
        }
        let e = match k {
            K::U => self.lit_u(),
            K::S => self.lit_s(),
            _ => {
                let l = if self.s.coin() { self.lit_u() } else { self.lit_s() };
                self.cast(l, k)
            }
        };
        Self::with_ty(sc, e)
    }

    /// A path without dynamic accesses
    fn path0(&mut self, root: &Var) -> (Ex, Option<Ty>) {
        let mut e = Ex::Ref(root.name.clone());
        let mut t = root.ty.clone();
        loop {
            match t {
                Some(Ty::B(ref v)) if !v.is_empty() => {
                    let f = self.s.pick(v).clone();
                    e = Ex::Field(Box::new(e), f.name);
                    t = Some(f.ty);
                }
                Some(Ty::V(ref b, len)) => {
                    let b = (**b).clone();
                    let i = if len == 0 { 0 } else { self.s.below(len as usize) as u16 };
                    e = Ex::Index(Box::new(e), i);
                    t = Some(b);
                }
                _ => return (e, t),
            }
        }
    }

    fn wparam(&mut self) -> i64 {
        match self.s.below(6) {
            0 if self.o.wide => *self.s.pick(&WIDTHS) as i64,
            1 if self.o.wide => self.s.below(65536) as i64,
            _ => self.s.range(0, 20) as i64,
        }
    }

    /// An expression in which something occurs more than once, or which does
    /// nothing
    fn echo(&mut self, sc: &Scope, k: K) -> (Ex, Option<Ty>) {
        let b = |e: Ex| Box::new(e);
        let (x, t) = self.leaf(sc, k);
        let w = match t {
            Some(Ty::G(g)) => oracle::width(g).map(|w| w as i64),
            _ => None,
        };
        let e = match (k, self.s.below(6)) {
            (_, 0) => {
                let c = self.tiny();
                Ex::Mux(b(c), b(x.clone()), b(x))
            }
            (_, 1) => {
                let c = self.tiny();
                Ex::ValidIf(b(c), b(x))
            }
            (_, 2) | (K::Clock, _) | (K::Async, _) => self.cast(x, k),
            (K::U, 3) => {
                let op = *self.s.pick(&[Op::And, Op::Or, Op::Xor, Op::Cat, Op::Eq, Op::Neq, Op::Lt, Op::Leq, Op::Gt, Op::Geq]);
                Ex::Op(op, vec![x.clone(), x], vec![])
            }
            (K::U, 4) => Ex::Op(Op::Bits, vec![x], vec![(w.unwrap_or(1) - 1).max(0), 0]),
            (_, 4) => {
                let op = *self.s.pick(&[Op::Shl, Op::Shr]);
                Ex::Op(op, vec![x], vec![0])
            }
            (_, 3) => Ex::Op(Op::Pad, vec![x], vec![w.unwrap_or(0)]),
            _ => {
                let op = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul]);
                Ex::Op(op, vec![x.clone(), x], vec![])
            }
        };
        Self::with_ty(sc, e)
    }

    /// A well-typed expression of the given kind
    pub fn ex(&mut self, sc: &Scope, k: K, d: usize) -> (Ex, Option<Ty>) {
        if d == 0 {
            return self.leaf(sc, k);
        }
        if d > 6 {
            // deep, but narrow
            let b = |e: Ex| Box::new(e);
            let e = match (k, self.s.below(6)) {
                (_, 0) => {
                    let (s, x) = (self.ex(sc, K::U, d - 1).0, self.leaf(sc, k).0);
                    Ex::Mux(b(s), b(x.clone()), b(x))
                }
                (_, 1) => {
                    let (s, x, y) = (self.leaf(sc, K::U).0, self.leaf(sc, k).0, self.ex(sc, k, d - 1).0);
                    if self.s.coin() {
                        Ex::Mux(b(s), b(x), b(y))
                    } else {
                        Ex::Mux(b(s), b(y), b(x))
                    }
                }
                (_, 2) => {
                    let (s, x) = (self.leaf(sc, K::U).0, self.ex(sc, k, d - 1).0);
                    Ex::ValidIf(b(s), b(x))
                }
                (_, 3) | (K::Clock, _) | (K::Async, _) => {
                    let from = *self.s.pick(&[K::U, K::S, K::F]);
                    let x = self.ex(sc, from, d - 1).0;
                    self.cast(x, k)
                }
                (K::U, 4) => {
                    let op = *self.s.pick(&[Op::And, Op::Or, Op::Xor, Op::Cat]);
                    let (x, y) = (self.leaf(sc, k).0, self.ex(sc, k, d - 1).0);
                    Ex::Op(op, vec![x, y], vec![])
                }
                (K::S, 4) => Self::op1(Op::Neg, self.ex(sc, k, d - 1).0, vec![]),
                _ => {
                    let op = *self.s.pick(&[Op::Add, Op::Sub]);
                    let (x, y) = (self.leaf(sc, k).0, self.ex(sc, k, d - 1).0);
                    Ex::Op(op, if self.s.coin() { vec![x, y] } else { vec![y, x] }, vec![])
                }
            };
            return Self::with_ty(sc, e);
        }
        if self.s.chance(1, 5) {
            // any place of the right kind, via dynamic accesses too
            if let Some(v) = self.affordable(sc) {
                if v.ty.is_some() {
                    let (e, t) = self.path(sc, &v, true);
                    match &t {
                        Some(t2) if Self::kind_of(t2) == Some(k) => return (e, t),
                        _ => (),
                    }
                }
            }
        }
        const MUX: usize = 1000;
        const VALIDIF: usize = 1001;
        let c = |o: Op| o as usize;
        let mut opts: Vec<usize> = match k {
            K::U => [
                Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Lt, Op::Leq, Op::Gt, Op::Geq, Op::Eq, Op::Neq, Op::Pad,
                Op::AsUInt, Op::Shl, Op::Shr, Op::Dshl, Op::Dshr, Op::Not, Op::And, Op::Or, Op::Xor, Op::Andr, Op::Orr,
                Op::Xorr, Op::Cat, Op::Bits, Op::Head, Op::Tail,
            ]
            .iter()
            .map(|o| c(*o))
            .collect(),
            K::S => [
                Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Pad, Op::AsSInt, Op::Shl, Op::Shr, Op::Dshl, Op::Dshr,
                Op::Cvt, Op::Neg,
            ]
            .iter()
            .map(|o| c(*o))
            .collect(),
            K::F => [
                Op::Add, Op::Sub, Op::Mul, Op::Pad, Op::AsFixed, Op::Shl, Op::Shr, Op::Dshl, Op::Dshr, Op::Incp, Op::Decp,
                Op::Setp,
            ]
            .iter()
            .map(|o| c(*o))
            .collect(),
            K::Clock => vec![c(Op::AsClock)],
            K::Async => vec![c(Op::AsAsync)],
        };
        opts.push(MUX);
        opts.push(VALIDIF);
        if self.s.chance(1, 12) {
            return self.echo(sc, k);
        }
        let pick = *self.s.pick(&opts);
        let any_int = |g: &mut Self| if g.s.coin() { K::U } else { K::S };
        if pick == MUX {
            let s = self.ex(sc, K::U, d - 1).0;
            let a = self.ex(sc, k, d - 1).0;
            let b = self.ex(sc, k, d - 1).0;
            return Self::with_ty(sc, Ex::Mux(Box::new(s), Box::new(a), Box::new(b)));
        }
        if pick == VALIDIF {
            let s = self.ex(sc, K::U, d - 1).0;
            let a = self.ex(sc, k, d - 1).0;
            return Self::with_ty(sc, Ex::ValidIf(Box::new(s), Box::new(a)));
        }
        let op = OPS[pick];
        let e = match op {
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Rem => {
                let a = self.ex(sc, k, d - 1).0;
                let b = self.ex(sc, k, d - 1).0;
                Ex::Op(op, vec![a, b], vec![])
            }
            Op::Lt | Op::Leq | Op::Gt | Op::Geq | Op::Eq | Op::Neq => {
                let k = *self.s.pick(&[K::U, K::S, K::F]);
                let a = self.ex(sc, k, d - 1).0;
                let b = self.ex(sc, k, d - 1).0;
                Ex::Op(op, vec![a, b], vec![])
            }
            Op::And | Op::Or | Op::Xor | Op::Cat => {
                let k = any_int(self);
                let a = self.ex(sc, k, d - 1).0;
                let b = self.ex(sc, k, d - 1).0;
                Ex::Op(op, vec![a, b], vec![])
            }
            Op::Not | Op::Andr | Op::Orr | Op::Xorr | Op::Cvt | Op::Neg => {
                let k = any_int(self);
                Self::op1(op, self.ex(sc, k, d - 1).0, vec![])
            }
            Op::AsUInt | Op::AsSInt | Op::AsClock | Op::AsAsync | Op::AsFixed => {
                let from = *self.s.pick(&[K::U, K::S, K::F, K::Clock, K::Async]);
                let e = self.ex(sc, from, d - 1).0;
                self.cast(e, k)
            }
            Op::Pad | Op::Shl | Op::Shr => {
                let (a, t) = self.ex(sc, k, d - 1);
                let w = match t {
                    Some(Ty::G(g)) => oracle::width(g),
                    _ => None,
                };
                let p = match (w, self.s.below(3)) {
                    // close to the operand's width
                    (Some(w), 0) => (w as i64 + self.s.range(0, 4) as i64 - 2).clamp(0, 65535),
                    (Some(w), 1) if op == Op::Shl && self.o.wide => (65535 - w as i64 + self.s.range(0, 4) as i64 - 2).clamp(0, 65535),
                    _ => self.wparam(),
                };
                Self::op1(op, a, vec![p])
            }
            Op::Dshl | Op::Dshr => {
                let a = self.ex(sc, k, d - 1).0;
                let b = if self.s.chance(2, 3) {
                    let w = self.s.range(0, 20) as u16;
                    let v = BigUint::from(self.s.below(1 << w.min(8)));
                    Ex::U(v, w)
                } else {
                    self.ex(sc, K::U, d - 1).0
                };
                Ex::Op(op, vec![a, b], vec![])
            }
            Op::Bits | Op::Head | Op::Tail => {
                let k = *self.s.pick(&[K::U, K::S, K::F]);
                let (a, t) = self.ex(sc, k, d - 1);
                let w = match t {
                    Some(Ty::G(g)) => oracle::width(g),
                    _ => None,
                };
                let lim = match w {
                    Some(w) => w as usize,
                    None => 65535,
                };
                let pos = |g: &mut Self, max: usize| -> i64 {
                    (match g.s.below(4) {
                        0 => max,
                        1 => 0,
                        _ => g.s.range(0, max),
                    }) as i64
                };
                let p = match op {
                    Op::Bits if lim > 0 => {
                        let hi = pos(self, lim - 1);
                        let lo = pos(self, hi as usize);
                        vec![hi, lo]
                    }
                    Op::Bits => vec![self.wparam(), 0],
                    _ => vec![pos(self, lim)],
                };
                Self::op1(op, a, p)
            }
            Op::Incp | Op::Decp => {
                let a = self.ex(sc, K::F, d - 1).0;
                let p = self.wparam();
                Self::op1(op, a, vec![p])
            }
            Op::Setp => {
                let a = self.ex(sc, K::F, d - 1).0;
                let p = self.point().unwrap_or(3) as i64;
                Self::op1(op, a, vec![p])
            }
        };
        Self::with_ty(sc, e)
    }

    pub fn params(&mut self, op: Op) -> Vec<i64> {
        let k = op.sig().2;
        (0..k)
            .map(|_| if op.signed_param() { self.point().unwrap_or(-7) as i64 } else { self.wparam() })
            .collect()
    }

    /// Any expression at all over the declared entities
    pub fn wild(&mut self, sc: &Scope, d: usize) -> Ex {
        if d == 0 {
            if let (true, Some(v)) = (self.s.chance(2, 3), self.affordable(sc)) {
                return Ex::Ref(v.name);
            }
            return if self.s.coin() { self.lit_u() } else { self.lit_s() };
        }
        match self.s.weighted(&[2, 2, 2, 2, 2, 2, 8]) {
            0 => self.wild(sc, 0),
            1 => {
                let b = self.wild(sc, d - 1);
                let mut used = HashSet::new();
                let f = self.field_name(&mut used);
                Ex::Field(Box::new(b), f)
            }
            2 => {
                let b = self.wild(sc, d - 1);
                Ex::Index(Box::new(b), self.wparam() as u16)
            }
            3 => Ex::Access(Box::new(self.wild(sc, d - 1)), Box::new(self.wild(sc, d - 1))),
            4 => Ex::Mux(Box::new(self.wild(sc, d - 1)), Box::new(self.wild(sc, d - 1)), Box::new(self.wild(sc, d - 1))),
            5 => Ex::ValidIf(Box::new(self.wild(sc, d - 1)), Box::new(self.wild(sc, d - 1))),
            _ => {
                let op = *self.s.pick(&OPS);
                let v = (0..op.sig().1).map(|_| self.wild(sc, d - 1)).collect();
                let p = self.params(op);
                Ex::Op(op, v, p)
            }
        }
    }

    fn depth(&mut self) -> usize {
        if self.big == Big::ExDepth {
            return self.big(Big::ExDepth, 1, 140);
        }
        match self.s.below(4) {
            0 => 0,
            1 => 1,
            2 => self.s.range(0, 2),
            _ => self.s.range(0, self.o.depth),
        }
    }

    fn bounded(&mut self, sc: &Scope, e: Ex) -> Ex {
        if sc.cost(&e) > MAX_COST {
            self.lit_u()
        } else {
            e
        }
    }

    /// An expression of the given kind, or sometimes anything
    pub fn any_of(&mut self, sc: &Scope, k: K) -> Ex {
        let d = self.depth();
        let e = if self.s.chance(self.o.untyped, 100) { self.wild(sc, d.min(3)) } else { self.ex(sc, k, d).0 };
        self.bounded(sc, e)
    }

    pub fn clock(&mut self, sc: &Scope) -> Ex {
        if self.s.chance(1, 3) {
            self.any_of(sc, K::Clock)
        } else {
            let e = self.leaf(sc, K::Clock).0;
            self.bounded(sc, e)
        }
    }

    /// Any expression, scalar or aggregate
    pub fn value(&mut self, sc: &Scope) -> Ex {
        if self.s.chance(self.o.untyped, 100) {
            let d = self.depth();
            let e = self.wild(sc, d.min(3));
            return self.bounded(sc, e);
        }
        if self.s.chance(1, 3) {
            if let Some(v) = self.affordable(sc) {
                let (e, t) = self.path(sc, &v, false);
                let e = match self.s.below(6) {
                    0 if matches!(t, Some(Ty::B(_)) | Some(Ty::V(..))) => {
                        let c = self.leaf(sc, K::U).0;
                        Ex::Mux(Box::new(c), Box::new(e.clone()), Box::new(e))
                    }
                    1 => {
                        let c = self.leaf(sc, K::U).0;
                        Ex::ValidIf(Box::new(c), Box::new(e))
                    }
                    _ => e,
                };
                return self.bounded(sc, e);
            }
        }
        let k = *self.s.pick(&[K::U, K::S, K::F, K::U, K::S, K::Clock, K::Async]);
        self.any_of(sc, k)
    }

    pub fn place(&mut self, sc: &Scope) -> Ex {
        if let (true, Some(v)) = (self.s.chance(9, 10), self.affordable(sc)) {
            let e = self.path(sc, &v, false).0;
            self.bounded(sc, e)
        } else {
            self.value(sc)
        }
    }

    // --------------------------------------------------------- statements

    pub fn ruw(&mut self) -> Ruw {
        *self.s.pick(&[Ruw::Undefined, Ruw::Old, Ruw::New])
    }

    fn decl_name(&mut self, sc: &Scope, used: &mut HashSet<N>) -> N {
        if self.o.shadow && self.s.chance(1, 6) && !sc.vars.is_empty() {
            return self.s.pick(&sc.vars).name.clone();
        }
        if self.o.shadow && self.s.chance(1, 12) {
            // the same name in another name space
            if let (true, Some(m)) = (self.s.coin(), sc.smems.last()) {
                return m.0.clone();
            }
            if let Some(m) = sc.mods.last() {
                return m.0.clone();
            }
        }
        self.fresh(used)
    }

    pub fn mem(&mut self, name: N) -> Mem {
        let k = self.s.size(4);
        let k = self.big(Big::MemPorts, k, 300);
        let mut used = HashSet::new();
        let dir = [PDir::Read, PDir::Write, PDir::ReadWrite];
        let td = self.s.below(3);
        Mem {
            name,
            ty: self.ty(td),
            depth: self.u64ish(),
            ports: (0..k).map(|_| (self.fresh(&mut used), *self.s.pick(&dir))).collect(),
            rl: self.latency(),
            wl: self.latency(),
            ruw: self.ruw(),
        }
    }

    /// Type of a `cmem` or `smem`: a vector, unless ill-typed
    pub fn smem_ty(&mut self) -> Ty {
        let td = self.s.below(3);
        let t = self.ty(td);
        if self.s.chance(1, 8) {
            t
        } else {
            Ty::V(Box::new(t), self.veclen())
        }
    }

    pub fn latency(&mut self) -> u16 {
        match self.s.below(5) {
            0 => *self.s.pick(&[65535u16, 32768, 256, 255]),
            _ => self.s.below(4) as u16,
        }
    }

    pub fn u64ish(&mut self) -> u64 {
        match self.s.below(5) {
            0 => *self.s.pick(&[0u64, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) + 1, (1 << 32), (1 << 32) + 1, (1 << 32) - 1]),
            1 => {
                let k = self.s.below(64);
                let d = self.s.below(3) as u64;
                (1u64 << k).wrapping_add(d).wrapping_sub(1)
            }
            2 => {
                let sh = self.s.below(64);
                self.s.u64() >> sh
            }
            _ => self.s.range(1, 70) as u64,
        }
    }

    pub fn i64ish(&mut self) -> i64 {
        match self.s.below(4) {
            0 => *self.s.pick(&[0i64, -1, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, 1 << 53, -(1 << 31)]),
            1 => self.u64ish() as i64,
            _ => self.s.range(0, 20) as i64 - 10,
        }
    }

    pub fn decl(&mut self, sc: &mut Scope, used: &mut HashSet<N>) -> De {
        let c = self.s.weighted(&[4, 3, 6, 2, 3, 3]);
        let td = self.s.below(4);
        match c {
            4 if !sc.smems.is_empty() => {
                let name = self.decl_name(sc, used);
                let (mem, ty) = self.s.pick(&sc.smems).clone();
                let dir = *self.s.pick(&[Some(PDir::Read), Some(PDir::Write), Some(PDir::ReadWrite), None]);
                let addr = self.any_of(sc, K::U);
                let clk = self.clock(sc);
                let cost = sc.cost(&addr) + sc.cost(&clk);
                let d = De::MPort { name: name.clone(), mem, dir, addr, clk };
                // a port gives access to one element
                sc.add(name, if let Ty::V(t, _) = ty { Some(*t) } else { None }, cost);
                d
            }
            5 if !sc.mods.is_empty() => {
                let name = self.decl_name(sc, used);
                let (module, ty) = self.s.pick(&sc.mods).clone();
                sc.add(name.clone(), Some(ty), 1);
                De::Inst { name, module }
            }
            1 => {
                let name = self.decl_name(sc, used);
                let ty = self.ty(td);
                let clk = self.clock(sc);
                let reset = if self.s.chance(1, 8) {
                    let (a, b) = (self.tiny(), self.tiny());
                    Some((a, b))
                } else if self.s.coin() {
                    Some((
                        if self.s.coin() { self.any_of(sc, K::U) } else { self.any_of(sc, K::Async) },
                        self.value(sc),
                    ))
                } else {
                    None
                };
                let mut cost = sc.cost(&clk);
                if let Some((a, b)) = &reset {
                    cost += sc.cost(a) + sc.cost(b);
                }
                sc.add(name.clone(), Some(ty.clone()), cost);
                De::Reg { name, ty, clk, reset }
            }
            2 => {
                let name = self.decl_name(sc, used);
                let v = self.value(sc);
                let t = sc.ty_of(&v);
                let c = sc.cost(&v);
                sc.add(name.clone(), t, c + 1);
                De::Node(name, v)
            }
            3 => {
                let name = self.decl_name(sc, used);
                let m = self.mem(name.clone());
                sc.add(name, Some(oracle::mem_ty(&m)), 1);
                De::Mem(m)
            }
            _ => {
                let name = self.decl_name(sc, used);
                let ty = self.ty(td);
                sc.add(name.clone(), Some(ty.clone()), 1);
                De::Wire(name, ty)
            }
        }
    }

    pub fn msg(&mut self, sc: &Scope) -> Vec<Pe> {
        let k = self.s.size(6);
        let k = self.big(Big::Msg, k, 300);
        let mut v: Vec<Pe> = vec![];
        for _ in 0..k {
            if self.s.coin() && !matches!(v.last(), Some(Pe::Lit(_))) {
                let s = self.text();
                if !s.is_empty() {
                    v.push(Pe::Lit(s));
                }
            } else {
                let e = self.value(sc);
                v.push(Pe::Val(e, *self.s.pick(&[Fmt::D, Fmt::B, Fmt::X, Fmt::C])));
            }
        }
        v
    }

    fn opt_name(&mut self) -> Option<N> {
        if self.s.chance(1, 3) {
            Some(self.label())
        } else {
            None
        }
    }

    /// The names in `used` are those declared by statements of the module
    pub fn stmt(&mut self, sc: &mut Scope, used: &mut HashSet<N>, d: usize, budget: &mut usize) -> St {
        let c = self.s.weighted(&[8, 2, 2, 12, 2, 3, 2, if d > 0 { 5 } else { 0 }, 2, 3]);
        let c = if self.deep > 0 { 7 } else { c };
        let k = match c {
            0 => {
                let t = self.place(sc);
                let f = self.value(sc);
                Sk::Connect(t, f)
            }
            1 => {
                let t = self.place(sc);
                let f = self.value(sc);
                Sk::Partial(t, f)
            }
            2 => Sk::Skip,
            3 => Sk::Decl(self.decl(sc, used)),
            4 => {
                let name = if self.o.shadow && !sc.smems.is_empty() && self.s.chance(1, 5) {
                    self.s.pick(&sc.smems).0.clone()
                } else if self.o.shadow && !sc.vars.is_empty() && self.s.chance(1, 6) {
                    self.s.pick(&sc.vars).name.clone()
                } else {
                    self.fresh(used)
                };
                let ty = self.smem_ty();
                let k = match self.s.below(5) {
                    0 | 1 => SmKind::C,
                    2 => SmKind::S(None),
                    _ => SmKind::S(Some(self.ruw())),
                };
                sc.add_smem(name.clone(), ty.clone());
                Sk::SMem(name, ty, k)
            }
            5 => Sk::Invalid(self.place(sc)),
            6 => {
                let k = self.s.range(1, 4);
                let k = self.big(Big::Attach, k, 300);
                Sk::Attach((0..k).map(|_| self.place(sc)).collect())
            }
            7 => {
                let d = d.saturating_sub(1);
                let c = self.any_of(sc, K::U);
                // a chain of branches through either side
                let deep = self.deep.saturating_sub(1);
                let down_else = deep > 0 && self.s.chance(1, 3);
                self.deep = if down_else { 0 } else { deep };
                let a = self.block(sc, used, d, budget, true);
                self.deep = if down_else { deep } else { 0 };
                let k = match self.s.below(4) {
                    0 | 1 => 0,
                    2 => 1,
                    _ => match self.s.below(3) {
                        0 => 2,
                        1 => 3,
                        _ => 4,
                    },
                };
                let k = if self.deep > 0 { 1 } else { k };
                let k = self.big(Big::ElseWhen, k, 140);
                // k / 2 times `else when`, then possibly `else`
                let mut chain = vec![];
                for _ in 0..k / 2 {
                    let c = self.any_of(sc, K::U);
                    let x = self.block(sc, used, d, budget, true);
                    chain.push((c, x));
                }
                let mut b = if k % 2 == 1 { self.block(sc, used, d, budget, false) } else { vec![] };
                for (c, x) in chain.into_iter().rev() {
                    b = vec![St { k: Sk::When(c, x, b), info: self.info() }];
                }
                Sk::When(c, a, b)
            }
            8 => Sk::Stop { name: self.opt_name(), clk: self.clock(sc), cond: self.any_of(sc, K::U), code: self.i64ish() },
            _ => Sk::Print { name: self.opt_name(), clk: self.clock(sc), cond: self.any_of(sc, K::U), msg: self.msg(sc) },
        };
        St { k, info: self.info() }
    }

    /// A block of statements; at least one unless it may be empty
    pub fn block(&mut self, sc: &mut Scope, used: &mut HashSet<N>, d: usize, budget: &mut usize, empty: bool) -> Vec<St> {
        let lo = if empty { 0 } else { 1 };
        let k = match self.s.below(8) {
            0 => lo,
            1..=3 => 1,
            _ => self.s.range(1, 4),
        };
        let k = if self.deep > 0 { k.max(1) } else { k };
        let k = self.big(Big::Block, k, 280);
        if k > 4 {
            *budget += k;
        }
        let mut v = vec![];
        for _ in 0..k {
            if *budget == 0 && self.deep == 0 {
                break;
            }
            *budget = budget.saturating_sub(1);
            v.push(self.stmt(sc, used, d, budget));
        }
        if v.is_empty() && !empty {
            v.push(St { k: Sk::Skip, info: None });
        }
        v
    }

    pub fn ports(&mut self, sc: &mut Scope, used: &mut HashSet<N>) -> Vec<Port> {
        let k = self.s.size(6);
        let k = self.big(Big::Ports, k, 300);
        (0..k)
            .map(|i| {
                let td = if k > 6 { self.s.below(2) } else { self.s.below(4) };
                let p = Port {
                    name: self.fresh(used),
                    input: self.s.coin(),
                    ty: if i == 0 && self.s.coin() { Ty::G(Gt::Clock) } else { self.ty(td) },
                    info: self.info(),
                };
                sc.add(p.name.clone(), Some(p.ty.clone()), 1);
                p
            })
            .collect()
    }

    pub fn double(&mut self) -> f64 {
        let v = match self.s.below(5) {
            0 => *self.s.pick(&[
                0.0, -0.0, 1.0, -1.0, 0.1, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e100, 1e308, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324,
                -5e-324, 1.5, 123456789.0, 9007199254740993.0, 0.3, 2.5e-10, 1e-7, 4.35, 1e-5,
            ]),
            1 => self.i64ish() as f64,
            2 => self.i64ish() as f64 / 1024.0,
            _ => f64::from_bits(self.s.u64()),
        };
        if v.is_finite() {
            v
        } else {
            1.25
        }
    }

    pub fn module(&mut self, name: N, mods: &[(N, Ty)], ext: bool) -> Module {
        let mut sc = Scope { vars: vec![], smems: vec![], mods: mods.to_vec() };
        let mut used = HashSet::new();
        let info = self.info();
        let ports = self.ports(&mut sc, &mut used);
        let kind = if ext {
            let defname = if self.s.coin() { Some(self.label()) } else { None };
            let k = self.s.size(5);
            let k = self.big(Big::Params, k, 280);
            let mut params = BTreeMap::new();
            for _ in 0..k {
                let x = self.name();
                let v = match self.s.below(3) {
                    0 => Pv::Int(self.i64ish()),
                    1 => Pv::Dbl(self.double()),
                    _ => Pv::Str(self.text()),
                };
                params.insert(x, v);
            }
            Mk::Ext { defname, params }
        } else {
            let k = self.s.range(0, self.o.size);
            let k = self.big(Big::Stmts, k, 300);
            let mut budget = self.o.size * 2;
            let d = self.s.range(0, self.o.depth);
            self.deep = self.big(Big::WhenDepth, 0, 80);
            let k = if self.deep > 0 { k.max(1) } else { k };
            budget += 4 * self.deep;
            let mut v = vec![];
            for _ in 0..k {
                v.push(self.stmt(&mut sc, &mut used, d, &mut budget));
            }
            Mk::Reg(v)
        };
        Module { name, info, ports, kind }
    }

    pub fn circuit(&mut self) -> Circuit {
        let k = match self.s.below(4) {
            0 => 1,
            1 => self.s.range(1, 2),
            _ => self.s.range(1, self.o.max_mods),
        };
        let k = self.big(Big::Mods, k, 130);
        let mut used = HashSet::new();
        let mut mods: Vec<Module> = vec![];
        let mut types = vec![];
        // many small modules, all of them instantiated in one place
        let many = self.big(Big::Insts, 0, 280);
        for _ in 0..many {
            let name = self.fresh(&mut used);
            let ports = (0..self.s.below(3))
                .map(|i| Port { name: n(&format!("p{}", i)), input: self.s.coin(), ty: Ty::G(self.ground()), info: None })
                .collect();
            let kind = match self.s.below(4) {
                0 => Mk::Ext { defname: None, params: BTreeMap::new() },
                1 if !types.is_empty() => {
                    let (m, _): &(N, Ty) = self.s.pick(&types);
                    Mk::Reg(vec![St { k: Sk::Decl(De::Inst { name: n("i"), module: m.clone() }), info: None }])
                }
                _ => Mk::Reg(vec![St { k: Sk::Skip, info: None }]),
            };
            let m = Module { name: name.clone(), info: None, ports, kind };
            types.push((name, oracle::inst_ty(&m.ports)));
            mods.push(m);
        }
        for i in 0..k {
            let name = self.fresh(&mut used);
            let ext = self.s.chance(1, 4) && (i + 1 < k || self.s.chance(1, 6));
            let m = self.module(name.clone(), &types, ext);
            types.push((name, oracle::inst_ty(&m.ports)));
            mods.push(m);
        }
        if many > 0 {
            let mut v: Vec<St> = types[..many]
                .iter()
                .enumerate()
                .map(|(i, t)| St { k: Sk::Decl(De::Inst { name: n(&format!("inst_{}", i)), module: t.0.clone() }), info: None })
                .collect();
            for i in (1..v.len()).rev() {
                let j = self.s.below(i + 1);
                v.swap(i, j);
            }
            if self.s.chance(1, 3) {
                let at = self.s.below(v.len());
                let w = v.split_off(at);
                let c = Ex::U(BigUint::from(1u8), 1);
                v.push(St { k: Sk::When(c, w, vec![]), info: None });
            }
            if let Some(Mk::Reg(s)) = mods.last_mut().map(|m| &mut m.kind) {
                s.extend(v);
            }
        }
        let top = if self.o.unreachable_mods && self.s.chance(1, 3) {
            self.s.pick(&mods).name.clone()
        } else {
            mods.last().unwrap().name.clone()
        };
        let mut c = Circuit { top, info: self.info(), mods };
        if self.o.weird_names && self.s.chance(1, 25) {
            crate::names::disguise(self.s, &mut c);
        }
        c
    }
}

pub fn min_signed_bits(v: &BigInt) -> u64 {
    // least w with -2^(w-1) <= v < 2^(w-1)
    match v.sign() {
        Sign::NoSign => 1,
        Sign::Plus => v.bits() + 1,
        Sign::Minus => {
            let m = v.magnitude();
            let pow2 = m.count_ones() == 1;
            if pow2 {
                m.bits()
            } else {
                m.bits() + 1
            }
        }
    }
}

/// Modules reachable from the top, keeping their order
pub fn prune(c: &Circuit) -> Circuit {
    let v = c.reachable();
    Circuit { top: c.top.clone(), info: c.info.clone(), mods: c.mods.iter().filter(|m| v.mods.contains_key(&m.name)).cloned().collect() }
}

/// Types of all modules' instances
pub fn inst_types(c: &Circuit) -> HashMap<N, Ty> {
    c.mods.iter().map(|m| (m.name.clone(), oracle::inst_ty(&m.ports))).collect()
}

/// Coverage features of a circuit
#[derive(Default, Debug, Clone)]
pub struct Feat {
    pub stmts: usize,
    pub whens: usize,
    pub nested: usize,
    pub elses: usize,
    pub else_whens: usize,
    pub insts: usize,
    pub diamonds: usize,
    pub mems: usize,
    pub infos: usize,
    pub shadows: usize,
    pub ext: usize,
    pub empty_when: usize,
    pub ops: HashSet<&'static str>,
}

pub fn feats(c: &Circuit) -> Feat {
    let mut f = Feat::default();
    fn go(f: &mut Feat, v: &[St], d: usize, names: &mut HashSet<N>) {
        for s in v {
            f.stmts += 1;
            f.infos += s.info.is_some() as usize;
            for e in stmt_exprs(s) {
                fn ops(f: &mut Feat, e: &Ex) {
                    if let Ex::Op(o, ..) = e {
                        f.ops.insert(o.sig().0);
                    }
                    for s in e.subs() {
                        ops(f, s)
                    }
                }
                ops(f, e);
            }
            match &s.k {
                Sk::When(_, a, b) => {
                    f.whens += 1;
                    f.nested += (d > 0) as usize;
                    f.elses += !b.is_empty() as usize;
                    f.else_whens += (b.len() == 1 && matches!(b[0].k, Sk::When(..))) as usize;
                    f.empty_when += a.is_empty() as usize;
                    go(f, a, d + 1, names);
                    go(f, b, d + 1, names);
                }
                Sk::Decl(x) => {
                    f.insts += matches!(x, De::Inst { .. }) as usize;
                    f.mems += matches!(x, De::Mem(_) | De::MPort { .. }) as usize;
                    f.shadows += !names.insert(x.name().clone()) as usize;
                }
                Sk::SMem(..) => f.mems += 1,
                _ => (),
            }
        }
    }
    let mut seen: HashMap<N, usize> = HashMap::new();
    for m in &c.mods {
        let mut names: HashSet<N> = m.ports.iter().map(|p| p.name.clone()).collect();
        f.infos += m.info.is_some() as usize + m.ports.iter().filter(|p| p.info.is_some()).count();
        f.ext += matches!(m.kind, Mk::Ext { .. }) as usize;
        go(&mut f, m.stmts(), 0, &mut names);
        for i in m.insts() {
            *seen.entry(i).or_default() += 1;
        }
    }
    f.diamonds = seen.values().filter(|v| **v > 1).count();
    f
}
