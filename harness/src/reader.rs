//! An independent FIRRTL reader: text → model, or a reason why the text is no
//! circuit. Whatever FIRRTL or the library's documentation leave open is
//! reported as such instead of being judged.

use num_bigint::{BigInt, BigUint};
use std::collections::{BTreeMap, HashSet};

use crate::gen::{is_id_char, min_signed_bits};
use crate::model::*;

pub enum Read {
    /// The circuit denoted by the text; if `soft`, rejecting it is fine, too
    Ok { c: Circuit, soft: bool },
    /// Not a circuit, with the number of the line at fault and the reason
    Reject(usize, String),
    /// No claim is made
    Open(String),
}

enum E {
    Bad(String),
    Open(String),
}
type R<T> = Result<T, E>;

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(E::Bad(m.into()))
}
fn open<T>(m: impl Into<String>) -> R<T> {
    Err(E::Open(m.into()))
}

struct Ln {
    no: usize,
    indent: usize,
    c: Vec<char>,
}

struct Names {
    ents: HashSet<String>,
    mems: HashSet<String>,
}

/// Position in one line
struct P<'a> {
    c: &'a [char],
    i: usize,
    env: &'a Names,
    soft: &'a std::cell::Cell<bool>,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while matches!(self.c.get(self.i), Some(' ') | Some('\t')) {
            self.i += 1
        }
    }
    fn rest(&self) -> String {
        self.c[self.i..].iter().take(20).collect()
    }
    fn try_p(&mut self, s: &str) -> bool {
        let at = self.i;
        self.ws();
        let s: Vec<char> = s.chars().collect();
        if self.c[self.i..].starts_with(&s) {
            self.i += s.len();
            true
        } else {
            self.i = at;
            false
        }
    }
    fn p(&mut self, s: &str) -> R<()> {
        if self.try_p(s) {
            Ok(())
        } else {
            bad(format!("expected {:?} at {:?}", s, self.rest()))
        }
    }
    fn word(&mut self) -> String {
        let at = self.i;
        while self.i < self.c.len() && is_id_char(self.c[self.i]) {
            self.i += 1
        }
        self.c[at..self.i].iter().collect()
    }
    fn try_kw(&mut self, k: &str) -> bool {
        let at = self.i;
        self.ws();
        if self.word() == k {
            true
        } else {
            self.i = at;
            false
        }
    }
    fn kw(&mut self, k: &str) -> R<()> {
        if self.try_kw(k) {
            Ok(())
        } else {
            bad(format!("expected {:?} at {:?}", k, self.rest()))
        }
    }
    fn ident(&mut self) -> R<N> {
        self.ws();
        match self.c.get(self.i) {
            Some(c) if is_id_char(*c) && !c.is_numeric() => Ok(n(self.word())),
            _ => bad(format!("expected a name at {:?}", self.rest())),
        }
    }
    fn field_name(&mut self) -> R<N> {
        self.ws();
        let w = self.word();
        if w.is_empty() {
            bad(format!("expected a field name at {:?}", self.rest()))
        } else {
            Ok(n(w))
        }
    }
    /// The characters of a decimal number
    fn digits(&mut self) -> R<String> {
        let mut s = String::new();
        if let Some(c @ ('+' | '-')) = self.c.get(self.i) {
            s.push(*c);
            self.i += 1;
        }
        let mut any = false;
        while let Some(c) = self.c.get(self.i) {
            if !c.is_numeric() {
                break;
            }
            if !c.is_ascii_digit() {
                return bad("not a decimal digit");
            }
            any = true;
            s.push(*c);
            self.i += 1;
        }
        if any {
            Ok(s)
        } else {
            bad(format!("expected a number at {:?}", self.rest()))
        }
    }
    fn num(&mut self, lo: i128, hi: i128) -> R<i128> {
        let s = self.digits()?;
        let v: BigInt = s.trim_start_matches('+').parse().map_err(|_| E::Bad("number".into()))?;
        if v == BigInt::from(0) && s.starts_with('-') && lo >= 0 {
            return open("negative zero");
        }
        if v < BigInt::from(lo) || v > BigInt::from(hi) {
            return bad(format!("{} is out of range", s));
        }
        Ok(v.to_string().parse().unwrap())
    }
    fn u16(&mut self) -> R<u16> {
        self.ws();
        Ok(self.num(0, 65535)? as u16)
    }
    fn i16(&mut self) -> R<i16> {
        self.ws();
        Ok(self.num(-32768, 32767)? as i16)
    }

    /// Content of a string up to the delimiter, which is consumed
    fn string(&mut self, delim: char) -> R<String> {
        let mut o = String::new();
        loop {
            match self.c.get(self.i) {
                None => return bad("unterminated string"),
                Some('\\') => {
                    match self.c.get(self.i + 1) {
                        None => return open("escaped line ending"),
                        Some('n') => o.push('\n'),
                        Some('t') => o.push('\t'),
                        Some('\r') if self.i + 2 == self.c.len() => return open("escaped line ending"),
                        Some(c) => o.push(*c),
                    }
                    self.i += 2;
                }
                Some('\t') => return bad("tab in string"),
                Some(c) if *c == delim => {
                    self.i += 1;
                    return Ok(o);
                }
                Some(c) => {
                    o.push(*c);
                    self.i += 1;
                }
            }
        }
    }

    fn info(&mut self) -> R<Option<String>> {
        if self.try_p("@[") {
            Ok(Some(self.string(']')?))
        } else {
            Ok(None)
        }
    }

    /// End of the line, maybe after a comment
    fn end(&mut self) -> R<()> {
        self.ws();
        match self.c.get(self.i) {
            None => Ok(()),
            Some(';') => {
                if self.c[self.i..].contains(&'\r') {
                    open("carriage return in comment")
                } else {
                    Ok(())
                }
            }
            Some('\r') => open("carriage return"),
            _ => bad(format!("superfluous {:?}", self.rest())),
        }
    }

    // -------------------------------------------------------------- types

    fn width(&mut self) -> R<Option<u16>> {
        let at = self.i;
        self.ws();
        if self.c.get(self.i) != Some(&'<') || matches!(self.c.get(self.i + 1), Some('<') | Some('=') | Some('-')) {
            // `-` can only start a negative number, which is out of range
            self.i = at;
            return Ok(None);
        }
        self.i += 1;
        if matches!(self.c.get(self.i), Some(' ') | Some('\t')) {
            return open("space within a width");
        }
        let w = self.num(0, 65535)? as u16;
        if matches!(self.c.get(self.i), Some(' ') | Some('\t')) {
            return open("space within a width");
        }
        if self.c.get(self.i) != Some(&'>') {
            return bad("unterminated width");
        }
        self.i += 1;
        Ok(Some(w))
    }

    fn point(&mut self) -> R<Option<i16>> {
        if !self.try_p("<<") {
            return Ok(None);
        }
        if matches!(self.c.get(self.i), Some(' ') | Some('\t')) {
            return open("space within a point");
        }
        let v = self.num(-32768, 32767)? as i16;
        if matches!(self.c.get(self.i), Some(' ') | Some('\t')) {
            return open("space within a point");
        }
        if !(self.c.get(self.i) == Some(&'>') && self.c.get(self.i + 1) == Some(&'>')) {
            return bad("unterminated binary point");
        }
        self.i += 2;
        Ok(Some(v))
    }

    fn ty(&mut self) -> R<Ty> {
        let mut t = if self.try_p("{") {
            let mut v = vec![];
            let mut names = HashSet::new();
            if !self.try_p("}") {
                loop {
                    let mut flip = false;
                    let mut name = self.field_name()?;
                    if &*name == "flip" {
                        let at = self.i;
                        match self.field_name() {
                            Ok(x) => {
                                flip = true;
                                name = x;
                            }
                            Err(_) => self.i = at,
                        }
                    }
                    self.p(":")?;
                    let ty = self.ty()?;
                    if !names.insert(name.clone()) {
                        self.soft.set(true);
                    }
                    v.push(Fl { name, flip, ty });
                    if self.try_p("}") {
                        break;
                    }
                    self.p(",")?;
                }
            }
            Ty::B(v)
        } else {
            self.ws();
            Ty::G(match self.word().as_str() {
                "UInt" => Gt::UInt(self.width()?),
                "SInt" => Gt::SInt(self.width()?),
                "Analog" => Gt::Analog(self.width()?),
                "Fixed" => {
                    let w = self.width()?;
                    Gt::Fixed(w, self.point()?)
                }
                "Clock" => Gt::Clock,
                "Reset" => Gt::Reset,
                "AsyncReset" => Gt::Async,
                o => return bad(format!("no such type: {:?}", o)),
            })
        };
        while self.try_p("[") {
            let w = self.u16()?;
            self.p("]")?;
            t = Ty::V(Box::new(t), w);
        }
        Ok(t)
    }

    // -------------------------------------------------------- expressions

    fn lit(&mut self) -> R<(BigInt, bool)> {
        self.ws();
        let (s, radix) = if self.c.get(self.i) == Some(&'"') {
            let radix = match self.c.get(self.i + 1) {
                Some('b') => 2,
                Some('o') => 8,
                Some('h') => 16,
                _ => return bad("unknown radix"),
            };
            self.i += 2;
            let at = self.i;
            while !matches!(self.c.get(self.i), None | Some('"')) {
                self.i += 1
            }
            if self.i == self.c.len() {
                return bad("unterminated number");
            }
            let s: String = self.c[at..self.i].iter().collect();
            self.i += 1;
            (s, radix)
        } else {
            (self.digits()?, 10)
        };
        let d = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(&s);
        if d.is_empty() || !d.chars().all(|c| c.to_digit(radix).is_some()) {
            return bad(format!("{:?} is not a number of radix {}", s, radix));
        }
        let v = BigInt::parse_bytes(d.as_bytes(), radix).unwrap();
        let neg = s.starts_with('-');
        Ok((if neg { -v } else { v }, neg))
    }

    fn is_call(&self, at: usize) -> bool {
        let mut i = at;
        while matches!(self.c.get(i), Some(' ') | Some('\t')) {
            i += 1
        }
        self.c.get(i) == Some(&'(')
    }

    fn primary(&mut self) -> R<Ex> {
        self.ws();
        let name = self.ident()?;
        if matches!(&*name, "UInt" | "SInt") && (self.is_call(self.i) || self.lit_ahead()) {
            let w = self.width()?;
            self.p("(")?;
            let (v, neg) = self.lit()?;
            self.p(")")?;
            if &*name == "UInt" {
                if neg {
                    return if v == BigInt::from(0) { open("negative zero") } else { bad("negative unsigned literal") };
                }
                let v: BigUint = v.magnitude().clone();
                let need = v.bits();
                let w = match w {
                    Some(w) => {
                        if need > w as u64 {
                            self.soft.set(true)
                        }
                        w
                    }
                    None if need == 0 => return open("width of an unsigned zero"),
                    None if need > 65535 => return bad("literal too wide"),
                    None => need as u16,
                };
                return Ok(Ex::U(v, w));
            }
            let need = min_signed_bits(&v);
            let w = match w {
                Some(w) => {
                    if need > w as u64 {
                        self.soft.set(true)
                    }
                    w
                }
                None if need > 65535 => return bad("literal too wide"),
                None => need as u16,
            };
            return Ok(Ex::S(v, w));
        }
        if self.is_call(self.i) {
            self.p("(")?;
            let f = &*name;
            let (ops, params, op) = match f {
                "mux" => (3, 0, None),
                "validif" => (2, 0, None),
                _ => match OPS.iter().find(|o| o.sig().0 == f) {
                    Some(o) => (o.sig().1, o.sig().2, Some(*o)),
                    None => return bad(format!("no such operation: {}", f)),
                },
            };
            let mut v = vec![];
            for i in 0..ops {
                if i > 0 {
                    self.p(",")?;
                }
                v.push(self.ex()?);
            }
            let mut p = vec![];
            for _ in 0..params {
                self.p(",")?;
                p.push(if op.unwrap().signed_param() { self.i16()? as i64 } else { self.u16()? as i64 });
            }
            self.p(")")?;
            let mut it = v.into_iter();
            let mut next = || Box::new(it.next().unwrap());
            return Ok(match op {
                None if f == "mux" => Ex::Mux(next(), next(), next()),
                None => Ex::ValidIf(next(), next()),
                Some(o) => Ex::Op(o, it.collect(), p),
            });
        }
        if self.env.ents.contains(&*name) {
            Ok(Ex::Ref(name))
        } else {
            bad(format!("{:?} is not declared", name))
        }
    }

    /// Whether a width and a left parenthesis follow
    fn lit_ahead(&self) -> bool {
        let mut q = P { c: self.c, i: self.i, env: self.env, soft: &std::cell::Cell::new(false) };
        match q.width() {
            Ok(Some(_)) => q.is_call(q.i),
            Ok(None) => false,
            Err(E::Open(_)) => true,
            Err(E::Bad(_)) => false,
        }
    }

    fn ex(&mut self) -> R<Ex> {
        let mut e = self.primary()?;
        loop {
            if self.try_p(".") {
                e = Ex::Field(Box::new(e), self.field_name()?);
            } else if self.try_p("[") {
                self.ws();
                let num = matches!(self.c.get(self.i), Some(c) if c.is_numeric() || *c == '+' || *c == '-');
                if num {
                    e = Ex::Index(Box::new(e), self.u16()?);
                } else {
                    let i = self.ex()?;
                    e = Ex::Access(Box::new(e), Box::new(i));
                }
                self.p("]")?;
            } else {
                return Ok(e);
            }
        }
    }

    fn opt_name(&mut self) -> R<Option<N>> {
        if self.try_p(":") {
            Ok(Some(self.ident()?))
        } else {
            Ok(None)
        }
    }

    fn ruw(&mut self) -> R<Ruw> {
        self.ws();
        match self.word().as_str() {
            "old" => Ok(Ruw::Old),
            "new" => Ok(Ruw::New),
            "undefined" => Ok(Ruw::Undefined),
            o => bad(format!("no such behaviour: {:?}", o)),
        }
    }

    fn format(&mut self) -> R<Vec<Result<String, Fmt>>> {
        self.p("\"")?;
        let mut v: Vec<Result<String, Fmt>> = vec![];
        fn lit(v: &mut Vec<Result<String, Fmt>>, c: char) {
            match v.last_mut() {
                Some(Ok(s)) => s.push(c),
                _ => v.push(Ok(c.to_string())),
            }
        }
        loop {
            let c = match self.c.get(self.i) {
                None => return bad("unterminated format string"),
                Some(c) => *c,
            };
            self.i += 1;
            match c {
                '"' => return Ok(v),
                '\t' => return bad("tab in format string"),
                '%' => {
                    let s = self.c.get(self.i).copied();
                    self.i += 1;
                    match s {
                        Some('b') => v.push(Err(Fmt::B)),
                        Some('d') => v.push(Err(Fmt::D)),
                        Some('x') => v.push(Err(Fmt::X)),
                        Some('c') => v.push(Err(Fmt::C)),
                        Some('%') => lit(&mut v, '%'),
                        _ => return bad("no such format specifier"),
                    }
                }
                '\\' => {
                    let s = self.c.get(self.i).copied();
                    self.i += 1;
                    match s {
                        None => return open("escaped line ending"),
                        Some('n') => lit(&mut v, '\n'),
                        Some('t') => lit(&mut v, '\t'),
                        Some('\r') if self.i == self.c.len() => return open("escaped line ending"),
                        Some(c) => lit(&mut v, c),
                    }
                }
                c => lit(&mut v, c),
            }
        }
    }
}

pub struct Reader {
    lines: Vec<Ln>,
    at: usize,
    names: Names,
    soft: std::cell::Cell<bool>,
}

fn split(text: &str) -> R<Vec<Ln>> {
    let mut v = vec![];
    let segs: Vec<&str> = text.split('\n').collect();
    let last = segs.len() - 1;
    for (i, s) in segs.into_iter().enumerate() {
        let s = if i < last { s.strip_suffix('\r').unwrap_or(s) } else { s };
        let c: Vec<char> = s.chars().collect();
        let mut j = 0;
        while matches!(c.get(j), Some(' ') | Some('\t')) {
            j += 1
        }
        match c.get(j) {
            None => continue,
            Some(';') => {
                if c.contains(&'\r') {
                    return open("carriage return in comment");
                }
                continue;
            }
            Some('\r') => return open("carriage return"),
            _ => (),
        }
        v.push(Ln { no: i + 1, indent: j, c });
    }
    Ok(v)
}

impl Reader {
    fn cur_no(&self) -> usize {
        self.lines.get(self.at).or(self.lines.last()).map(|l| l.no).unwrap_or(1)
    }

    /// Parse the current line
    fn line<T>(&self, f: impl FnOnce(&mut P) -> R<T>) -> R<T> {
        let l = &self.lines[self.at];
        let mut p = P { c: &l.c, i: l.indent, env: &self.names, soft: &self.soft };
        f(&mut p)
    }

    fn indent(&self) -> R<Option<usize>> {
        match self.lines.get(self.at) {
            None => Ok(None),
            Some(l) => {
                if l.c[..l.indent].contains(&'\t') {
                    return open("tab in indentation");
                }
                Ok(Some(l.indent))
            }
        }
    }

    /// Whether the current line belongs to the block
    fn in_block(&self, level: &mut Option<usize>, parent: usize) -> R<bool> {
        let i = match self.indent()? {
            None => return Ok(false),
            Some(i) => i,
        };
        Ok(match level {
            Some(l) => i == *l,
            None if i > parent => {
                *level = Some(i);
                true
            }
            None => false,
        })
    }

    fn circuit(&mut self) -> R<Circuit> {
        match self.indent()? {
            None => return bad("no circuit"),
            Some(0) => (),
            Some(_) => return open("indented circuit"),
        }
        let (top, info) = self.line(|p| {
            p.kw("circuit")?;
            let x = p.ident()?;
            p.p(":")?;
            let i = p.info()?;
            p.end()?;
            Ok((x, i))
        })?;
        self.at += 1;
        let mut mods: Vec<Module> = vec![];
        let mut level = None;
        while self.in_block(&mut level, 0)? {
            let m = self.module(&mods, level.unwrap())?;
            if mods.iter().any(|x| x.name == m.name) {
                return open("module defined twice");
            }
            mods.push(m);
        }
        if self.at < self.lines.len() {
            return bad("misplaced line");
        }
        if !mods.iter().any(|m| m.name == top) {
            return bad("no top module");
        }
        Ok(Circuit { top, info, mods })
    }

    fn module(&mut self, mods: &[Module], ind: usize) -> R<Module> {
        let (ext, name, info) = self.line(|p| {
            let ext = if p.try_kw("module") {
                false
            } else if p.try_kw("extmodule") {
                true
            } else {
                return bad("expected a module");
            };
            let x = p.ident()?;
            p.p(":")?;
            let i = p.info()?;
            p.end()?;
            Ok((ext, x, i))
        })?;
        self.at += 1;
        self.names = Names { ents: HashSet::new(), mems: HashSet::new() };
        let mut level = None;
        let mut ports: Vec<Port> = vec![];
        while self.in_block(&mut level, ind)? {
            let p = self.line(|p| {
                let input = if p.try_kw("input") {
                    true
                } else if p.try_kw("output") {
                    false
                } else {
                    return Ok(None);
                };
                // a statement about an entity of that name?
                let name = match p.ident() {
                    Ok(x) => x,
                    Err(_) => return Ok(None),
                };
                if !p.try_p(":") {
                    return Ok(None);
                }
                let ty = p.ty()?;
                let info = p.info()?;
                p.end()?;
                Ok(Some(Port { name, input, ty, info }))
            });
            match p {
                Ok(Some(p)) => {
                    self.names.ents.insert(p.name.to_string());
                    ports.push(p);
                    self.at += 1;
                }
                Ok(None) => break,
                Err(e) => return Err(e),
            }
        }
        let kind = if ext {
            let mut defname = None;
            let mut params = BTreeMap::new();
            let mut first = true;
            while self.in_block(&mut level, ind)? {
                if first {
                    let d = self.line(|p| {
                        if !p.try_kw("defname") {
                            return Ok(None);
                        }
                        p.p("=")?;
                        let x = p.ident()?;
                        p.end()?;
                        Ok(Some(x))
                    })?;
                    first = false;
                    if d.is_some() {
                        defname = d;
                        self.at += 1;
                        continue;
                    }
                }
                let (k, v) = self.line(|p| {
                    p.kw("parameter")?;
                    let x = p.ident()?;
                    p.p("=")?;
                    let v = param(p)?;
                    p.end()?;
                    Ok((x, v))
                })?;
                if params.insert(k, v).is_some() {
                    return open("parameter given twice");
                }
                self.at += 1;
            }
            Mk::Ext { defname, params }
        } else {
            Mk::Reg(self.block(&mut level, ind, mods)?)
        };
        Ok(Module { name, info, ports, kind })
    }

    fn block(&mut self, level: &mut Option<usize>, parent: usize, mods: &[Module]) -> R<Vec<St>> {
        let mut v = vec![];
        while self.in_block(level, parent)? {
            v.push(self.stmt(level.unwrap(), mods)?);
        }
        Ok(v)
    }

    fn declare(&mut self, x: &N) -> R<()> {
        if &**x == "else" {
            return open("entity named else");
        }
        self.names.ents.insert(x.to_string());
        Ok(())
    }

    fn stmt(&mut self, ind: usize, mods: &[Module]) -> R<St> {
        if self.names.ents.contains("else") {
            return open("entity named else");
        }
        // statements starting with an expression
        let first = self.line(|p| {
            let e = match p.ex() {
                Ok(e) => e,
                Err(E::Open(o)) => return open(o),
                Err(E::Bad(_)) => return Ok(None),
            };
            let k = if p.try_p("<=") {
                Sk::Connect(e, p.ex()?)
            } else if p.try_p("<-") {
                Sk::Partial(e, p.ex()?)
            } else if p.try_kw("is") {
                if !p.try_kw("invalid") {
                    return Ok(None);
                }
                Sk::Invalid(e)
            } else {
                return Ok(None);
            };
            let info = p.info()?;
            p.end()?;
            Ok(Some(St { k, info }))
        })?;
        if let Some(s) = first {
            self.at += 1;
            return Ok(s);
        }
        let key = self.line(|p| {
            p.ws();
            Ok(p.word())
        })?;
        match key.as_str() {
            "when" => return self.when(ind, mods),
            "mem" => return self.mem(ind),
            _ => (),
        }
        let s = self.line(|p| {
            p.ws();
            p.word();
            let k = match key.as_str() {
                "skip" => Sk::Skip,
                "wire" => {
                    let x = p.ident()?;
                    p.p(":")?;
                    Sk::Decl(De::Wire(x, p.ty()?))
                }
                "node" => {
                    let x = p.ident()?;
                    p.p("=")?;
                    Sk::Decl(De::Node(x, p.ex()?))
                }
                "reg" => {
                    let name = p.ident()?;
                    p.p(":")?;
                    let ty = p.ty()?;
                    p.p(",")?;
                    let clk = p.ex()?;
                    let reset = if p.try_kw("with") {
                        p.p(":")?;
                        p.p("(")?;
                        p.kw("reset")?;
                        p.p("=>")?;
                        p.p("(")?;
                        let a = p.ex()?;
                        p.p(",")?;
                        let b = p.ex()?;
                        p.p(")")?;
                        p.p(")")?;
                        Some((a, b))
                    } else {
                        None
                    };
                    Sk::Decl(De::Reg { name, ty, clk, reset })
                }
                "inst" => {
                    let name = p.ident()?;
                    p.kw("of")?;
                    let module = p.ident()?;
                    if !mods.iter().any(|m| m.name == module) {
                        return bad(format!("module {:?} is not defined", module));
                    }
                    Sk::Decl(De::Inst { name, module })
                }
                "cmem" | "smem" => {
                    let name = p.ident()?;
                    p.p(":")?;
                    let ty = p.ty()?;
                    let k = if key == "cmem" {
                        SmKind::C
                    } else if p.try_p(",") {
                        SmKind::S(Some(p.ruw()?))
                    } else {
                        SmKind::S(None)
                    };
                    Sk::SMem(name, ty, k)
                }
                "read" | "write" | "rdwr" | "infer" => {
                    p.kw("mport")?;
                    let name = p.ident()?;
                    p.p("=")?;
                    let mem = p.ident()?;
                    if !self.names.mems.contains(&*mem) {
                        return bad(format!("memory {:?} is not declared", mem));
                    }
                    p.p("[")?;
                    let addr = p.ex()?;
                    p.p("]")?;
                    p.try_p(",");
                    let clk = p.ex()?;
                    let dir = match key.as_str() {
                        "read" => Some(PDir::Read),
                        "write" => Some(PDir::Write),
                        "rdwr" => Some(PDir::ReadWrite),
                        _ => None,
                    };
                    Sk::Decl(De::MPort { name, mem, dir, addr, clk })
                }
                "attach" => {
                    p.p("(")?;
                    let mut v = vec![p.ex()?];
                    while p.try_p(",") {
                        v.push(p.ex()?);
                    }
                    p.p(")")?;
                    Sk::Attach(v)
                }
                "stop" => {
                    p.p("(")?;
                    let clk = p.ex()?;
                    p.p(",")?;
                    let cond = p.ex()?;
                    p.p(",")?;
                    p.ws();
                    let code = p.num(i64::MIN as i128, i64::MAX as i128)? as i64;
                    p.p(")")?;
                    Sk::Stop { name: p.opt_name()?, clk, cond, code }
                }
                "printf" => {
                    p.p("(")?;
                    let clk = p.ex()?;
                    p.p(",")?;
                    let cond = p.ex()?;
                    p.p(",")?;
                    let f = p.format()?;
                    let mut msg = vec![];
                    for x in f {
                        msg.push(match x {
                            Ok(s) => (Some(s), None),
                            Err(f) => (None, Some(f)),
                        });
                    }
                    let mut out = vec![];
                    // arguments follow in the order of the specifiers
                    for (s, f) in msg {
                        out.push(match (s, f) {
                            (Some(s), _) => Pe::Lit(s),
                            (_, Some(f)) => {
                                p.p(",")?;
                                Pe::Val(p.ex()?, f)
                            }
                            _ => unreachable!(),
                        });
                    }
                    p.p(")")?;
                    Sk::Print { name: p.opt_name()?, clk, cond, msg: out }
                }
                o => return bad(format!("no such statement: {:?}", o)),
            };
            let info = p.info()?;
            p.end()?;
            Ok(St { k, info })
        })?;
        match &s.k {
            Sk::Decl(d) => {
                let x = d.name().clone();
                self.declare(&x)?
            }
            Sk::SMem(x, ..) => {
                self.names.mems.insert(x.to_string());
            }
            _ => (),
        }
        self.at += 1;
        Ok(s)
    }

    /// A conditional, starting with the condition on the current line, which
    /// may follow an `else`
    fn when(&mut self, ind: usize, mods: &[Module]) -> R<St> {
        let (c, info) = self.line(|p| {
            p.try_kw("else");
            p.kw("when")?;
            let c = p.ex()?;
            p.p(":")?;
            let info = p.info()?;
            p.end()?;
            Ok((c, info))
        })?;
        self.at += 1;
        let a = self.block(&mut None, ind, mods)?;
        if a.is_empty() {
            self.soft.set(true);
        }
        let mut b = vec![];
        if self.indent()? == Some(ind) && self.line(|p| Ok(p.try_kw("else")))? {
            let plain = self.line(|p| {
                p.kw("else")?;
                if !p.try_p(":") {
                    return Ok(false);
                }
                if p.info()?.is_some() {
                    return open("info at else");
                }
                p.end()?;
                Ok(true)
            })?;
            if plain {
                self.at += 1;
                b = self.block(&mut None, ind, mods)?;
                if b.is_empty() {
                    return open("empty else");
                }
            } else {
                b = vec![self.when(ind, mods)?];
            }
        }
        Ok(St { k: Sk::When(c, a, b), info })
    }

    fn mem(&mut self, ind: usize) -> R<St> {
        let (name, info) = self.line(|p| {
            p.kw("mem")?;
            let x = p.ident()?;
            p.p(":")?;
            let info = p.info()?;
            p.end()?;
            Ok((x, info))
        })?;
        self.at += 1;
        let (mut ty, mut depth, mut rl, mut wl, mut ruw) = (None, None, None, None, None);
        let mut ports = vec![];
        let mut level = None;
        while self.in_block(&mut level, ind)? {
            let twice = self.line(|p| {
                p.ws();
                let at = p.i;
                while p.i < p.c.len() && (is_id_char(p.c[p.i]) || p.c[p.i] == '-') {
                    p.i += 1
                }
                let key: String = p.c[at..p.i].iter().collect();
                p.p("=>")?;
                p.ws();
                let twice = match key.as_str() {
                    "data-type" => ty.replace(p.ty()?).is_some(),
                    "depth" => depth.replace(p.num(0, u64::MAX as i128)? as u64).is_some(),
                    "read-latency" => rl.replace(p.u16()?).is_some(),
                    "write-latency" => wl.replace(p.u16()?).is_some(),
                    "read-under-write" => ruw.replace(p.ruw()?).is_some(),
                    "reader" | "writer" | "readwriter" => {
                        let x = p.ident()?;
                        let d = match key.as_str() {
                            "reader" => PDir::Read,
                            "writer" => PDir::Write,
                            _ => PDir::ReadWrite,
                        };
                        ports.push((x, d));
                        false
                    }
                    o => return bad(format!("no such memory attribute: {:?}", o)),
                };
                p.end()?;
                Ok(twice)
            })?;
            if twice {
                return open("memory attribute given twice");
            }
            self.at += 1;
        }
        let (ty, depth) = match (ty, depth) {
            (Some(t), Some(d)) => (t, d),
            _ => return bad("memory attribute missing"),
        };
        self.declare(&name)?;
        let m = Mem {
            name,
            ty,
            depth,
            ports,
            rl: rl.unwrap_or(0),
            wl: wl.unwrap_or(0),
            ruw: ruw.unwrap_or(Ruw::Undefined),
        };
        Ok(St { k: Sk::Decl(De::Mem(m)), info })
    }
}

fn param(p: &mut P) -> R<Pv> {
    p.ws();
    match p.c.get(p.i) {
        Some(c @ ('"' | '\'')) => {
            let c = *c;
            p.i += 1;
            Ok(Pv::Str(p.string(c)?))
        }
        _ => {
            let at = p.i;
            let mut j = p.i;
            if matches!(p.c.get(j), Some('+') | Some('-')) {
                j += 1
            }
            let d0 = j;
            while matches!(p.c.get(j), Some(c) if c.is_ascii_digit()) {
                j += 1
            }
            if p.c.get(j) != Some(&'.') {
                let v = p.num(i64::MIN as i128, i64::MAX as i128)?;
                return Ok(Pv::Int(v as i64));
            }
            let whole = j > d0;
            j += 1;
            let f0 = j;
            while matches!(p.c.get(j), Some(c) if c.is_ascii_digit()) {
                j += 1
            }
            if !whole || j == f0 {
                return open("floating point number without digits on both sides of the point");
            }
            if matches!(p.c.get(j), Some('e')) {
                return open("small e");
            }
            if p.c.get(j) == Some(&'E') {
                j += 1;
                if matches!(p.c.get(j), Some('+') | Some('-')) {
                    j += 1
                }
                let e0 = j;
                while matches!(p.c.get(j), Some(c) if c.is_ascii_digit()) {
                    j += 1
                }
                if j == e0 {
                    return bad("exponent without digits");
                }
            }
            let s: String = p.c[at..j].iter().collect();
            p.i = j;
            match s.parse::<f64>() {
                Ok(v) if v.is_finite() => Ok(Pv::Dbl(v)),
                _ => bad("floating point number out of range"),
            }
        }
    }
}

pub fn read(text: &str) -> Read {
    let lines = match split(text) {
        Ok(l) => l,
        Err(E::Open(o)) | Err(E::Bad(o)) => return Read::Open(o),
    };
    let mut r = Reader {
        lines,
        at: 0,
        names: Names { ents: HashSet::new(), mems: HashSet::new() },
        soft: std::cell::Cell::new(false),
    };
    match r.circuit() {
        Ok(c) => Read::Ok { c, soft: r.soft.get() },
        Err(E::Bad(m)) => Read::Reject(r.cur_no(), m),
        Err(E::Open(m)) => Read::Open(m),
    }
}
