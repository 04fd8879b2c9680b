//! The harness's own FIRRTL writer, with free choice of layout and notation

use num_bigint::{BigInt, BigUint, Sign};

use crate::gen::{is_id_char, min_signed_bits};
use crate::model::*;
use crate::tape::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tk {
    Kw,
    Id,
    Num,
    P,
    Str,
    Info,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    /// no space allowed before it
    pub glue: bool,
    pub k: Tk,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lk {
    Circuit,
    Module,
    Port,
    Stmt,
    When,
    Else,
    ElseWhen,
    Mem,
    MemEntry,
    Defname,
    Param,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub indent: usize,
    pub toks: Vec<Tok>,
    pub kind: Lk,
    pub module: usize,
    /// first line of the outermost multi-line statement containing this line
    pub outer: Option<usize>,
    pub depth: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// vary indentation widths, attribute order, optional parts
    pub structure: bool,
    /// vary spacing, comments, blank lines, line endings
    pub spacing: bool,
    /// vary number and string notations
    pub notation: bool,
}

pub const PLAIN: Style = Style { structure: false, spacing: false, notation: false };
pub const FREE: Style = Style { structure: true, spacing: true, notation: true };

pub struct Render<'a> {
    pub s: &'a mut Src,
    pub style: Style,
    pub lines: Vec<Line>,
    cur: Vec<Tok>,
    module: usize,
    outer: Option<usize>,
    depth: usize,
}

pub fn ends_id(s: &str) -> bool {
    s.chars().last().map(is_id_char).unwrap_or(false)
}
pub fn starts_id(s: &str) -> bool {
    s.chars().next().map(is_id_char).unwrap_or(false)
}

impl<'a> Render<'a> {
    pub fn new(s: &'a mut Src, style: Style) -> Self {
        Render { s, style, lines: vec![], cur: vec![], module: 0, outer: None, depth: 0 }
    }

    fn t(&mut self, k: Tk, s: impl Into<String>) {
        self.cur.push(Tok { s: s.into(), glue: false, k });
    }
    fn kw(&mut self, s: &str) {
        self.t(Tk::Kw, s)
    }
    fn id(&mut self, s: &str) {
        self.t(Tk::Id, s)
    }
    fn p(&mut self, s: &str) {
        self.t(Tk::P, s)
    }
    fn glue(&mut self, k: Tk, s: impl Into<String>) {
        self.cur.push(Tok { s: s.into(), glue: true, k });
    }

    fn end(&mut self, indent: usize, kind: Lk) -> usize {
        let toks = std::mem::take(&mut self.cur);
        self.lines.push(Line { indent, toks, kind, module: self.module, outer: self.outer, depth: self.depth });
        self.lines.len() - 1
    }

    fn sub(&mut self, parent: usize) -> usize {
        parent
            + match self.style.structure {
                true if self.s.chance(1, 60) => *self.s.pick(&[9usize, 16, 31, 64, 100, 257]),
                true => *self.s.pick(&[2usize, 4, 1, 3, 8, 5]),
                false => 2,
            }
    }

    // ------------------------------------------------------------ numbers

    pub fn num(&mut self, v: impl Into<i128>) -> String {
        let v: i128 = v.into();
        let mut r = v.unsigned_abs().to_string();
        if self.style.notation && self.s.chance(1, 12) {
            let k = if self.s.chance(1, 12) { 45 } else { 3 };
            r = format!("{}{}", "0".repeat(self.s.range(1, k)), r);
        }
        if v < 0 {
            format!("-{}", r)
        } else if self.style.notation && self.s.chance(1, 16) {
            format!("+{}", r)
        } else {
            r
        }
    }

    pub fn literal(&mut self, neg: bool, v: &BigUint) -> String {
        let radix = if self.style.notation { *self.s.pick(&[10u32, 16, 2, 8, 10]) } else { 10 };
        let mut d = v.to_str_radix(radix);
        if radix == 16 && self.style.notation && self.s.coin() {
            d = d.to_uppercase();
        }
        if self.style.notation && self.s.chance(1, 8) {
            let k = if self.s.chance(1, 12) { 150 } else { 4 };
            d = format!("{}{}", "0".repeat(self.s.range(1, k)), d);
        }
        let sign = if neg {
            "-"
        } else if self.style.notation && self.s.chance(1, 8) {
            "+"
        } else {
            ""
        };
        match radix {
            10 => format!("{}{}", sign, d),
            16 => format!("\"h{}{}\"", sign, d),
            8 => format!("\"o{}{}\"", sign, d),
            _ => format!("\"b{}{}\"", sign, d),
        }
    }

    pub fn double(&mut self, v: f64) -> String {
        let fix = |s: String| -> String {
            // the grammar demands a point
            if s.contains('.') {
                s
            } else if let Some(i) = s.find('E') {
                format!("{}.0{}", &s[..i], &s[i..])
            } else {
                format!("{}.0", s)
            }
        };
        if !self.style.notation {
            return fix(format!("{}", v));
        }
        match self.s.below(4) {
            0 | 1 => fix(format!("{}", v)),
            2 => fix(format!("{:E}", v)),
            _ => {
                let s = fix(format!("{:E}", v)).replace("E", "E+").replace("E+-", "E-0");
                if v.is_sign_positive() {
                    format!("+{}", s)
                } else {
                    s
                }
            }
        }
    }

    // ------------------------------------------------------------ strings

    fn esc(&mut self, c: char, must: bool) -> String {
        match c {
            '\n' => "\\n".into(),
            '\t' => "\\t".into(),
            '\\' => "\\\\".into(),
            c if must => format!("\\{}", c),
            'n' | 't' | '\r' => c.to_string(),
            c if self.style.notation && self.s.chance(1, 24) => format!("\\{}", c),
            c => c.to_string(),
        }
    }

    pub fn info_text(&mut self, s: &str) -> String {
        let mut o = String::from("@[");
        for c in s.chars() {
            o.push_str(&self.esc(c, c == ']'));
        }
        o.push(']');
        o
    }

    pub fn quoted(&mut self, s: &str) -> String {
        let q = if self.style.notation && self.s.chance(1, 3) { '\'' } else { '"' };
        let mut o = String::from(q);
        for c in s.chars() {
            o.push_str(&self.esc(c, c == q));
        }
        o.push(q);
        o
    }

    pub fn format_text(&mut self, msg: &[Pe]) -> String {
        let mut o = String::from("\"");
        for p in msg {
            match p {
                Pe::Val(_, f) => o.push_str(match f {
                    Fmt::B => "%b",
                    Fmt::D => "%d",
                    Fmt::X => "%x",
                    Fmt::C => "%c",
                }),
                Pe::Lit(s) => {
                    for c in s.chars() {
                        if c == '%' {
                            let alt = self.style.notation && self.s.chance(1, 6);
                            o.push_str(if alt { "\\%" } else { "%%" });
                        } else {
                            o.push_str(&self.esc(c, c == '"'));
                        }
                    }
                }
            }
        }
        o.push('"');
        o
    }

    fn info(&mut self, i: &Option<String>) {
        if let Some(s) = i {
            let x = self.info_text(s);
            self.t(Tk::Info, x);
        }
    }

    // -------------------------------------------------------------- types

    fn width(&mut self, w: Option<u16>) {
        if let Some(w) = w {
            self.p("<");
            let x = self.num(w);
            self.glue(Tk::Num, x);
            self.glue(Tk::P, ">");
        }
    }

    pub fn gt(&mut self, g: Gt) {
        match g {
            Gt::UInt(w) => {
                self.kw("UInt");
                self.width(w)
            }
            Gt::SInt(w) => {
                self.kw("SInt");
                self.width(w)
            }
            Gt::Analog(w) => {
                self.kw("Analog");
                self.width(w)
            }
            Gt::Fixed(w, p) => {
                self.kw("Fixed");
                self.width(w);
                if let Some(p) = p {
                    self.p("<<");
                    let x = self.num(p);
                    self.glue(Tk::Num, x);
                    self.glue(Tk::P, ">>");
                }
            }
            Gt::Clock => self.kw("Clock"),
            Gt::Reset => self.kw("Reset"),
            Gt::Async => self.kw("AsyncReset"),
        }
    }

    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::G(g) => self.gt(*g),
            Ty::V(t, w) => {
                self.ty(t);
                self.p("[");
                let x = self.num(*w);
                self.t(Tk::Num, x);
                self.p("]");
            }
            Ty::B(v) => {
                self.p("{");
                for (i, f) in v.iter().enumerate() {
                    if i > 0 {
                        self.p(",");
                    }
                    if f.flip {
                        self.kw("flip");
                    }
                    self.id(&f.name);
                    self.p(":");
                    self.ty(&f.ty);
                }
                self.p("}");
            }
        }
    }

    // -------------------------------------------------------- expressions

    pub fn ex(&mut self, e: &Ex) {
        match e {
            Ex::U(v, w) => {
                self.kw("UInt");
                let omit = self.style.notation && v.bits() > 0 && v.bits() == *w as u64 && self.s.coin();
                if !omit {
                    self.width(Some(*w));
                }
                self.p("(");
                let x = self.literal(false, v);
                self.t(Tk::Num, x);
                self.p(")");
            }
            Ex::S(v, w) => {
                self.kw("SInt");
                let omit = self.style.notation && min_signed_bits(v) == *w as u64 && self.s.coin();
                if !omit {
                    self.width(Some(*w));
                }
                self.p("(");
                let x = self.literal(v.sign() == Sign::Minus, v.magnitude());
                self.t(Tk::Num, x);
                self.p(")");
            }
            Ex::Ref(x) => self.id(x),
            Ex::Field(b, f) => {
                self.ex(b);
                self.p(".");
                self.id(f);
            }
            Ex::Index(b, i) => {
                self.ex(b);
                self.p("[");
                let x = self.num(*i);
                self.t(Tk::Num, x);
                self.p("]");
            }
            Ex::Access(b, i) => {
                self.ex(b);
                self.p("[");
                self.ex(i);
                self.p("]");
            }
            Ex::Mux(a, b, c) => self.call("mux", &[a, b, c], &[]),
            Ex::ValidIf(a, b) => self.call("validif", &[a, b], &[]),
            Ex::Op(op, v, p) => {
                let v: Vec<&Ex> = v.iter().collect();
                self.call(op.sig().0, &v, p)
            }
        }
    }

    fn call(&mut self, f: &str, v: &[&Ex], p: &[i64]) {
        self.kw(f);
        self.p("(");
        let mut first = true;
        for e in v {
            if !first {
                self.p(",");
            }
            first = false;
            self.ex(e);
        }
        for x in p {
            self.p(",");
            let x = self.num(*x);
            self.t(Tk::Num, x);
        }
        self.p(")");
    }

    // --------------------------------------------------------- statements

    fn entry(&mut self, ind: usize, key: &str, k: Tk, v: String) {
        self.kw(key);
        self.p("=>");
        self.t(k, v);
        self.end(ind, Lk::MemEntry);
    }

    fn mem(&mut self, m: &Mem, info: &Option<String>, ind: usize) {
        self.kw("mem");
        self.id(&m.name);
        self.p(":");
        self.info(info);
        let top = self.outer.is_none();
        if top {
            self.outer = Some(self.lines.len());
        }
        self.end(ind, Lk::Mem);
        let sub = self.sub(ind);
        self.depth += 1;
        // 0: data-type, 1: depth, 2: read latency, 3: write latency, 4: ruw, 5: port
        let mut es: Vec<usize> = vec![0, 1];
        let skip = |s: &mut Src, on: bool| on && s.coin();
        if !(m.rl == 0 && skip(self.s, self.style.structure)) {
            es.push(2)
        }
        if !(m.wl == 0 && skip(self.s, self.style.structure)) {
            es.push(3)
        }
        es.extend(m.ports.iter().map(|_| 5));
        if !(m.ruw == Ruw::Undefined && skip(self.s, self.style.structure)) {
            es.push(4)
        }
        if self.style.structure {
            self.s.shuffle(&mut es);
        }
        let mut ports = m.ports.iter();
        for e in es {
            match e {
                0 => {
                    self.kw("data-type");
                    self.p("=>");
                    self.ty(&m.ty);
                    self.end(sub, Lk::MemEntry);
                }
                1 => {
                    let x = self.num(m.depth as i128);
                    self.entry(sub, "depth", Tk::Num, x)
                }
                2 => {
                    let x = self.num(m.rl);
                    self.entry(sub, "read-latency", Tk::Num, x)
                }
                3 => {
                    let x = self.num(m.wl);
                    self.entry(sub, "write-latency", Tk::Num, x)
                }
                4 => self.entry(sub, "read-under-write", Tk::Kw, ruw_kw(m.ruw).into()),
                _ => {
                    let (name, d) = ports.next().unwrap();
                    let k = match d {
                        PDir::Read => "reader",
                        PDir::Write => "writer",
                        PDir::ReadWrite => "readwriter",
                    };
                    self.entry(sub, k, Tk::Id, name.to_string())
                }
            }
        }
        self.depth -= 1;
        if top {
            self.outer = None;
        }
    }

    fn decl(&mut self, d: &De) {
        match d {
            De::Wire(x, t) => {
                self.kw("wire");
                self.id(x);
                self.p(":");
                self.ty(t);
            }
            De::Reg { name, ty, clk, reset } => {
                self.kw("reg");
                self.id(name);
                self.p(":");
                self.ty(ty);
                self.p(",");
                self.ex(clk);
                if let Some((s, v)) = reset {
                    self.kw("with");
                    self.p(":");
                    self.p("(");
                    self.kw("reset");
                    self.p("=>");
                    self.p("(");
                    self.ex(s);
                    self.p(",");
                    self.ex(v);
                    self.p(")");
                    self.p(")");
                }
            }
            De::Node(x, e) => {
                self.kw("node");
                self.id(x);
                self.p("=");
                self.ex(e);
            }
            De::Mem(_) => unreachable!(),
            De::MPort { name, mem, dir, addr, clk } => {
                self.kw(match dir {
                    Some(PDir::Read) => "read",
                    Some(PDir::Write) => "write",
                    Some(PDir::ReadWrite) => "rdwr",
                    None => "infer",
                });
                self.kw("mport");
                self.id(name);
                self.p("=");
                self.id(mem);
                self.p("[");
                self.ex(addr);
                self.p("]");
                if !(self.style.structure && self.s.chance(1, 4)) {
                    self.p(",");
                }
                self.ex(clk);
            }
            De::Inst { name, module } => {
                self.kw("inst");
                self.id(name);
                self.kw("of");
                self.id(module);
            }
        }
    }

    pub fn stmts(&mut self, v: &[St], ind: usize) {
        for s in v {
            self.stmt(s, ind)
        }
    }

    fn when(&mut self, c: &Ex, a: &[St], b: &[St], info: &Option<String>, ind: usize, kind: Lk) {
        self.kw("when");
        self.ex(c);
        self.p(":");
        self.info(info);
        self.end(ind, kind);
        self.depth += 1;
        let sub = self.sub(ind);
        self.stmts(a, sub);
        self.depth -= 1;
        if b.is_empty() {
            return;
        }
        if let [St { k: Sk::When(c, x, y), info }] = b {
            if !(self.style.structure && self.s.chance(1, 4)) {
                self.kw("else");
                self.when(c, x, y, info, ind, Lk::ElseWhen);
                return;
            }
        }
        self.kw("else");
        self.p(":");
        self.end(ind, Lk::Else);
        self.depth += 1;
        let sub = self.sub(ind);
        self.stmts(b, sub);
        self.depth -= 1;
    }

    fn stmt(&mut self, s: &St, ind: usize) {
        match &s.k {
            Sk::Connect(a, b) => {
                self.ex(a);
                self.p("<=");
                self.ex(b);
            }
            Sk::Partial(a, b) => {
                self.ex(a);
                self.p("<-");
                self.ex(b);
            }
            Sk::Skip => self.kw("skip"),
            Sk::Decl(De::Mem(m)) => return self.mem(m, &s.info, ind),
            Sk::Decl(d) => self.decl(d),
            Sk::SMem(x, t, k) => {
                self.kw(match k {
                    SmKind::C => "cmem",
                    SmKind::S(_) => "smem",
                });
                self.id(x);
                self.p(":");
                self.ty(t);
                if let SmKind::S(Some(r)) = k {
                    self.p(",");
                    self.kw(ruw_kw(*r));
                }
            }
            Sk::Invalid(e) => {
                self.ex(e);
                self.kw("is");
                self.kw("invalid");
            }
            Sk::Attach(v) => {
                let v: Vec<&Ex> = v.iter().collect();
                self.call("attach", &v, &[]);
            }
            Sk::When(c, a, b) => {
                let top = self.outer.is_none();
                if top {
                    self.outer = Some(self.lines.len());
                }
                self.when(c, a, b, &s.info, ind, Lk::When);
                if top {
                    self.outer = None;
                }
                return;
            }
            Sk::Stop { name, clk, cond, code } => {
                self.kw("stop");
                self.p("(");
                self.ex(clk);
                self.p(",");
                self.ex(cond);
                self.p(",");
                let x = self.num(*code);
                self.t(Tk::Num, x);
                self.p(")");
                self.opt_name(name);
            }
            Sk::Print { name, clk, cond, msg } => {
                self.kw("printf");
                self.p("(");
                self.ex(clk);
                self.p(",");
                self.ex(cond);
                self.p(",");
                let x = self.format_text(msg);
                self.t(Tk::Str, x);
                for m in msg {
                    if let Pe::Val(e, _) = m {
                        self.p(",");
                        self.ex(e);
                    }
                }
                self.p(")");
                self.opt_name(name);
            }
        }
        self.info(&s.info);
        self.end(ind, Lk::Stmt);
    }

    fn opt_name(&mut self, n: &Option<N>) {
        if let Some(x) = n {
            self.p(":");
            self.id(x);
        }
    }

    pub fn module(&mut self, m: &Module, ind: usize) {
        self.kw(if let Mk::Ext { .. } = m.kind { "extmodule" } else { "module" });
        self.id(&m.name);
        self.p(":");
        self.info(&m.info);
        self.end(ind, Lk::Module);
        let sub = self.sub(ind);
        for p in &m.ports {
            self.kw(if p.input { "input" } else { "output" });
            self.id(&p.name);
            self.p(":");
            self.ty(&p.ty);
            self.info(&p.info);
            self.end(sub, Lk::Port);
        }
        match &m.kind {
            Mk::Reg(v) => self.stmts(v, sub),
            Mk::Ext { defname, params } => {
                if let Some(d) = defname {
                    self.kw("defname");
                    self.p("=");
                    self.id(d);
                    self.end(sub, Lk::Defname);
                }
                let mut ps: Vec<_> = params.iter().collect();
                if self.style.structure {
                    self.s.shuffle(&mut ps);
                }
                for (k, v) in ps {
                    self.kw("parameter");
                    self.id(k);
                    self.p("=");
                    match v {
                        Pv::Int(i) => {
                            let x = self.num(*i);
                            self.t(Tk::Num, x)
                        }
                        Pv::Dbl(d) => {
                            let x = self.double(*d);
                            self.t(Tk::Num, x)
                        }
                        Pv::Str(s) => {
                            let x = self.quoted(s);
                            self.t(Tk::Str, x)
                        }
                    }
                    self.end(sub, Lk::Param);
                }
            }
        }
    }

    pub fn circuit(&mut self, c: &Circuit) {
        self.kw("circuit");
        self.id(&c.top);
        self.p(":");
        self.info(&c.info);
        self.end(0, Lk::Circuit);
        let ind = self.sub(0);
        for (i, m) in c.mods.iter().enumerate() {
            self.module = i;
            self.module(m, ind);
        }
    }
}

pub fn ruw_kw(r: Ruw) -> &'static str {
    match r {
        Ruw::Old => "old",
        Ruw::New => "new",
        Ruw::Undefined => "undefined",
    }
}

// --------------------------------------------------------------- assembling

fn comment(s: &mut Src) -> String {
    let k = s.range(0, 8);
    let mut r = String::from(";");
    for _ in 0..k {
        r.push_str(*s.pick(&[
            " ", "x", "circuit A :", "]", "@[", "\"", "'", "\\", ";", "  module M :", "skip", "\t", "ä名", "when", "%", "else:", "{", "\u{2028}", "end",
        ]));
    }
    r
}

fn blanks(s: &mut Src, max: usize) -> String {
    let k = s.range(0, max);
    (0..k).map(|_| if s.chance(1, 4) { '\t' } else { ' ' }).collect()
}

pub struct Text {
    pub text: String,
    /// line number (from 1) of each logical line
    pub at: Vec<usize>,
}

/// The text of one line without indentation
pub fn line_text(s: &mut Src, l: &Line, spacing: bool) -> String {
    let mut o = String::new();
    let wild = spacing && s.chance(1, 3);
    let mut prev: Option<&Tok> = None;
    for t in &l.toks {
        if let Some(p) = prev {
            if !t.glue {
                let need = ends_id(&p.s) && starts_id(&t.s);
                if wild {
                    let b = match s.below(4) {
                        0 => String::new(),
                        1 => " ".into(),
                        2 => "\t".into(),
                        _ if s.chance(1, 400) => blanks(s, 300),
                        _ => blanks(s, 4),
                    };
                    o.push_str(&b);
                    if need && b.is_empty() {
                        o.push(' ');
                    }
                } else {
                    // plain style
                    let tight = matches!(t.s.as_str(), "(" | ")" | "[" | "]" | "," | "." | "<" | "<<")
                        || matches!(p.s.as_str(), "(" | "[" | "." | "{")
                        || t.s == "}"
                        || (t.s == ":" && l.kind != Lk::Stmt);
                    if need || !tight {
                        o.push(' ');
                    }
                }
            }
        }
        o.push_str(&t.s);
        prev = Some(t);
    }
    o
}

pub fn assemble(s: &mut Src, lines: &[Line], spacing: bool) -> Text {
    let mut text = String::new();
    let mut at = vec![];
    let mut no = 1;
    let crlf = if spacing { s.below(4) } else { 3 };
    let noisy = spacing && s.coin();
    let mut eol = |s: &mut Src, t: &mut String| {
        let c = match crlf {
            0 => true,
            1 => s.coin(),
            _ => false,
        };
        t.push_str(if c { "\r\n" } else { "\n" });
    };
    let filler = |s: &mut Src, text: &mut String, no: &mut usize, eol: &mut dyn FnMut(&mut Src, &mut String)| {
        if noisy && s.chance(1, 4) {
            for _ in 0..s.range(1, 3) {
                text.push_str(&blanks(s, 5));
                if s.coin() {
                    text.push_str(&comment(s));
                }
                eol(s, text);
                *no += 1;
            }
        }
    };
    filler(s, &mut text, &mut no, &mut eol);
    // rarely, very many lines or blanks at one place
    let place = if spacing && !lines.is_empty() && s.chance(1, 400) { Some(s.below(lines.len())) } else { None };
    for (i, l) in lines.iter().enumerate() {
        text.push_str(&" ".repeat(l.indent));
        text.push_str(&line_text(s, l, spacing));
        at.push(no);
        if noisy {
            if s.chance(1, 4) {
                text.push_str(&blanks(s, 3));
            }
            if s.chance(1, 5) {
                text.push_str(&comment(s));
            }
        }
        if place == Some(i) && i + 1 < lines.len() {
            match s.below(4) {
                0 => {
                    let k = *s.pick(&[100, 255, 256, 1000, 65536]);
                    text.push_str(&" ".repeat(k))
                }
                1 => {
                    let k = *s.pick(&[100, 255, 256, 4096, 65536]);
                    text.push_str(&format!("{}{}", comment(s), "ä".repeat(k)))
                }
                _ => {
                    let k = if s.chance(1, 12) { 66000 } else { *s.pick(&[130, 254, 255, 256, 300, 1023, 4000]) };
                    let c = if s.coin() { comment(s) } else { String::new() };
                    for _ in 0..k {
                        eol(s, &mut text);
                        text.push_str(&c);
                    }
                    no += k;
                }
            }
        }
        if i + 1 < lines.len() {
            eol(s, &mut text);
            no += 1;
            filler(s, &mut text, &mut no, &mut eol);
        }
    }
    if !(spacing && s.chance(1, 4)) {
        eol(s, &mut text);
        if noisy {
            filler(s, &mut text, &mut no, &mut eol);
            if s.chance(1, 6) {
                text.push_str(&blanks(s, 3));
                if s.coin() {
                    text.push_str(&comment(s));
                }
            }
        }
    }
    Text { text, at }
}

pub fn text_of(s: &mut Src, c: &Circuit, style: Style) -> (Vec<Line>, Text) {
    let mut r = Render::new(s, style);
    r.circuit(c);
    let lines = r.lines;
    let t = assemble(s, &lines, style.spacing);
    (lines, t)
}

pub fn signed(v: &BigInt) -> (bool, BigUint) {
    (v.sign() == Sign::Minus, v.magnitude().clone())
}
