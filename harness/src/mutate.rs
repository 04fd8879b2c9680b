//! Mutations of texts: of their tokens and lines, and of their characters

use crate::model::*;
use crate::render::{Line, Lk, Tk, Tok};
use crate::tape::Src;

pub const NUMS: &[&str] = &[
    "0", "1", "-1", "2", "65535", "65536", "65537", "65534", "131072", "4294967295", "4294967296", "4294967297", "18446744073709551615",
    "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "32767", "32768",
    "-32768", "-32769", "007", "+3", "\"h1F\"", "\"b-101\"", "\"o17\"", "\"hFFFF\"", "\"b2\"", "\"o8\"", "\"hG\"", "\"h\"", "\"d12\"", "\"h-0\"", "1.5", "-0.0", "0.0", "1.0E400",
    "1.0E5", "0.1E-400", "340282366920938463463374607431768211456", "-0", "5.", ".5", "1_000", "0x10", "1e5", "99999999999999999999999999999999999999999",
    "--1", "+-1", "1.7976931348623159E308", "255", "256", "-128", "3",
];

const GROUPS: &[&[&str]] = &[
    &["read", "write", "rdwr", "infer"],
    &["old", "new", "undefined"],
    &["reader", "writer", "readwriter"],
    &["depth", "read-latency", "write-latency", "data-type", "read-under-write"],
    &["cmem", "smem", "wire"],
    &["input", "output"],
    &["UInt", "SInt", "Fixed", "Clock", "Reset", "AsyncReset", "Analog"],
    &["module", "extmodule", "circuit"],
    &["when", "else", "skip", "node", "reg", "inst", "mem", "stop", "printf", "attach"],
    &["mux", "validif"],
];

pub const RAW_STR: &[&str] = &[
    "", "a", "\\n", "\\t", "\\\\", "\\q", "%d", "%b", "%%", "\\%", "%", "%5d", "%s", "\\\"", "\\'", "\\]", "'", "\"", "]", " ", "é", "\\", "@[", ";", "\\é", "\\0", "%x%c", "\u{1}",
];

fn pos_where(s: &mut Src, lines: &[Line], f: impl Fn(&Tok) -> bool) -> Option<(usize, usize)> {
    let v: Vec<(usize, usize)> = lines
        .iter()
        .enumerate()
        .flat_map(|(i, l)| l.toks.iter().enumerate().map(move |(j, t)| (i, j, t)))
        .filter(|(_, _, t)| f(t))
        .map(|(i, j, _)| (i, j))
        .collect();
    if v.is_empty() {
        None
    } else {
        Some(*s.pick(&v))
    }
}

fn raw_str(s: &mut Src) -> String {
    let k = s.range(0, 4);
    (0..k).map(|_| *s.pick(RAW_STR)).collect()
}

pub fn tok(k: Tk, t: &str) -> Tok {
    Tok { s: t.into(), glue: false, k }
}

/// First line after the block starting at line `i`
fn block_end(lines: &[Line], i: usize) -> usize {
    let mut j = i + 1;
    while j < lines.len() && lines[j].indent > lines[i].indent {
        j += 1
    }
    j
}

/// Names of operations of other FIRRTL versions, or similar to those of this one
const FOREIGN_OPS: &[&str] = &[
    "asReset", "asInterval", "asSyncReset", "asAnalog", "asBool", "asuint", "AsUInt", "asUint", "addw", "subw", "addWrap", "inc", "dec", "wrap", "clip",
    "squz", "dshlw", "shlw", "rol", "ror", "mod", "ne", "le", "ge", "lte", "gte", "equ", "land", "nand", "nor", "xnor", "andR", "orR", "xorR", "andReduce", "inv", "com", "abs",
    "min", "max", "concat", "bit", "extract", "slice", "first", "last", "incP", "decP", "setP", "bpset", "bpshl", "bpshr", "trunc", "sext", "zext", "rep", "fill",
    "muxif", "mux4", "select", "ite", "validIf", "probe", "read", "rwprobe", "String", "Integer", "Bool", "Interval", "Fixed", "Clock", "Reset", "Analog", "UInt8",
    "Add", "ADD", "sum", "minus", "times", "divide", "convert", "negate", "complement", "intrinsic", "pow", "log2",
];
const FOREIGN_TYPES: &[&str] = &[
    "Interval", "SyncReset", "ResetAsync", "Asyncreset", "Bool", "Bits", "Probe", "RWProbe", "Integer", "String", "Inst", "Any", "uint", "Uint", "UINT", "Float", "FixedPoint", "Bundle", "Enum",
];
const FOREIGN_KWS: &[&str] = &[
    "inout", "intmodule", "extModule", "public", "layer", "elsif", "elif", "otherwise", "unless", "switch", "print", "fprintf", "assert", "assume", "cover", "regreset", "register", "memory", "instance",
    "const", "val", "rmem", "cmemory", "mem2", "rwmem", "wr", "rd", "readwrite", "rdwrite", "inferred", "undef", "none", "oldest", "latency", "data_type", "datatype", "size", "length", "read_latency",
    "readlatency", "readers", "readport", "rwport", "write-under-read", "param", "defn", "defName", "nop", "pass", "halt", "connect", "invalidate", "wires", "nodes", "skips", "whenever", "flipped", "Flip",
];
const FOREIGN_LINES: &[&str] = &[
    "connect # , #", "invalidate #", "regreset # : UInt<1>, #, #, UInt<1>(0)", "assert(#, #, #, \"a\")", "assert(#, #, #, \"a\") : #", "assume(#, #, #, \"a\")", "cover(#, #, #, \"a\")",
    "fprintf(#, #, #, \"a\")", "define # = #", "force(#, #, #, #)", "release(#, #, #)", "propassign #, #", "object # of #", "layerblock # :", "match # :", "type # = UInt<1>", "option # :",
    "FIRRTL version 1.1.0", "version 1.1.0", "public module # :", "intmodule # :", "parameter # = 1", "defname = #", "intrinsic = #", "input # : UInt<1>", "output # : Clock", "data-type => UInt<1>",
    "depth => 3", "reader => #", "read-under-write => old", "# := #", "# == #", "# => #", "# <> #", "# -> #", "# = #", "# < # ", "# is valid", "# invalid", "# <= # when #", "#", "#.#", "()", "reset => (#, #)",
    "with : (reset => (#, #))", "poison # : UInt<1>", "const wire # : UInt<1>", "wire # : const UInt<1>", "when # : skip", "else : skip", "else skip", "when # then", "end", "endmodule", "}", "// #", "# comment",
    "/* # */", "-- #", "@[#]", "\"#\"", "1", "skip skip", "skip ; skip", "skip, skip", "else if # :", "mport # = #[#], #", "read port # = #[#], #", "inst # : #", "instance # of #", "node # <= #", "node # : UInt<1> = #",
    "wire # = UInt<1>", "reg # : UInt<1>", "reg # : UInt<1> #", "cmem # : UInt<1>", "mem # : UInt<1>[2], #", "attach #, #", "attach()", "stop(#, #)", "stop(#, #, #)", "printf(#, #)", "printf(#, #, #)", "stop # # 1",
    "include \"#\"", "import #", "circuit # :",
];

/// A name, type, keyword or line which does not exist in this version of FIRRTL
fn foreign(s: &mut Src, lines: &mut Vec<Line>) {
    let id = match pos_where(s, lines, |t| t.k == Tk::Id) {
        Some((i, j)) => lines[i].toks[j].s.clone(),
        None => "x".to_string(),
    };
    match s.weighted(&[4, 2, 2, 3]) {
        0 => {
            if let Some((i, j)) = pos_where(s, lines, |t| t.k == Tk::Kw && OPS.iter().any(|o| o.sig().0 == t.s)) {
                lines[i].toks[j].s = (*s.pick(FOREIGN_OPS)).into();
            } else {
                let i = s.below(lines.len());
                let mut l = lines[i].clone();
                let op = *s.pick(FOREIGN_OPS);
                l.toks = vec![
                    tok(Tk::Kw, "node"), tok(Tk::Id, "n"), tok(Tk::P, "="), tok(Tk::Kw, op), tok(Tk::P, "("), tok(Tk::Kw, "UInt"), tok(Tk::P, "("), tok(Tk::Num, "1"), tok(Tk::P, ")"), tok(Tk::P, ")"),
                ];
                lines.insert(i + 1, l);
            }
        }
        1 => {
            if let Some((i, j)) = pos_where(s, lines, |t| t.k == Tk::Kw && t.s.chars().next().map(|c| c.is_uppercase()) == Some(true)) {
                lines[i].toks[j].s = (*s.pick(FOREIGN_TYPES)).into();
            }
        }
        2 => {
            if let Some((i, j)) = pos_where(s, lines, |t| t.k == Tk::Kw) {
                lines[i].toks[j].s = (*s.pick(FOREIGN_KWS)).into();
            }
        }
        _ => {
            let i = s.below(lines.len());
            let mut l = lines[i].clone();
            let t = s.pick(FOREIGN_LINES).replace('#', &id);
            l.toks = t.split(' ').filter(|t| !t.is_empty()).map(|t| tok(Tk::P, t)).collect();
            lines.insert(i + s.below(2), l);
        }
    }
}

const JUNK_P: &[&str] = &["(", ")", "[", "]", "{", "}", "<", ">", "<<", ">>", ",", ".", ":", "=", "=>", "<=", "<-", "flip", "is", "invalid", "with", "of", "-", "+", "0", "x", "?", "#", "@[]", "\"\"", "else", "\\"];

/// One mutation of lines or tokens, mostly small enough to keep texts valid
pub fn one(s: &mut Src, lines: &mut Vec<Line>) -> &'static str {
    if lines.is_empty() {
        return "none";
    }
    match s.weighted(&[6, 5, 3, 3, 2, 3, 4, 3, 2, 3, 3, 2, 2, 2, 2, 3]) {
        0 => {
            if let Some((i, j)) = pos_where(s, lines, |t| t.k == Tk::Num) {
                lines[i].toks[j].s = (*s.pick(NUMS)).into();
            }
            "number"
        }
        1 => {
            if let Some((i, j)) = pos_where(s, lines, |t| t.k == Tk::Kw) {
                let cur = lines[i].toks[j].s.clone();
                let op = OPS.iter().find(|o| o.sig().0 == cur);
                let new = match op {
                    Some(o) => {
                        let same: Vec<_> = OPS
                            .iter()
                            .filter(|p| (p.sig().1, p.sig().2) == (o.sig().1, o.sig().2) || s_any(s))
                            .collect();
                        s.pick(&same).sig().0.to_string()
                    }
                    None => match GROUPS.iter().find(|g| g.contains(&cur.as_str())) {
                        Some(g) => s.pick(g).to_string(),
                        None => cur,
                    },
                };
                lines[i].toks[j].s = new;
            }
            "keyword"
        }
        2 => {
            let i = s.below(lines.len());
            lines.remove(i);
            "line removed"
        }
        3 => {
            let i = s.below(lines.len());
            let l = lines[i].clone();
            lines.insert(i, l);
            "line doubled"
        }
        4 => {
            let i = s.below(lines.len());
            let l = lines.remove(i);
            let j = s.below(lines.len() + 1);
            lines.insert(j, l);
            "line moved"
        }
        5 => {
            if let Some((i, j)) = pos_where(s, lines, |t| matches!(t.k, Tk::Str | Tk::Info)) {
                let r = raw_str(s);
                let t = &mut lines[i].toks[j];
                t.s = match t.k {
                    Tk::Info => format!("@[{}]", r),
                    _ => {
                        if s.chance(1, 3) {
                            format!("'{}'", r)
                        } else {
                            format!("\"{}\"", r)
                        }
                    }
                };
            } else {
                let i = s.below(lines.len());
                let r = raw_str(s);
                lines[i].toks.push(tok(Tk::Info, &format!("@[{}]", r)));
            }
            "string"
        }
        6 => {
            if let (Some((i, j)), Some((k, l))) = (pos_where(s, lines, |t| t.k == Tk::Id), pos_where(s, lines, |t| t.k == Tk::Id)) {
                lines[i].toks[j].s = lines[k].toks[l].s.clone();
            }
            "identifier"
        }
        7 => {
            let v: Vec<usize> = (0..lines.len()).filter(|i| matches!(lines[*i].kind, Lk::When | Lk::Else | Lk::ElseWhen | Lk::Mem | Lk::Module)).collect();
            if !v.is_empty() {
                let i = *s.pick(&v);
                let e = block_end(lines, i);
                lines.drain(i + 1..e);
            }
            "block emptied"
        }
        8 => {
            let v: Vec<usize> = (0..lines.len()).filter(|i| matches!(lines[*i].kind, Lk::When | Lk::ElseWhen | Lk::Else)).collect();
            if !v.is_empty() {
                let i = *s.pick(&v);
                let e = block_end(lines, i);
                let mut l = lines[i].clone();
                l.toks = vec![tok(Tk::Kw, "else"), tok(Tk::P, ":")];
                l.kind = Lk::Else;
                if s.coin() {
                    l.toks.insert(1, tok(Tk::Kw, "when"));
                    l.toks.insert(2, tok(Tk::Kw, "UInt"));
                    l.toks.insert(3, tok(Tk::P, "("));
                    l.toks.insert(4, tok(Tk::Num, "1"));
                    l.toks.insert(5, tok(Tk::P, ")"));
                    l.kind = Lk::ElseWhen;
                }
                lines.insert(e, l);
            }
            "else added"
        }
        9 => {
            if let Some((i, j)) = pos_where(s, lines, |_| true) {
                lines[i].toks.remove(j);
            }
            "token removed"
        }
        10 => {
            if let Some((i, j)) = pos_where(s, lines, |_| true) {
                let junk = *s.pick(JUNK_P);
                let t = match s.below(3) {
                    0 => lines[i].toks[j].clone(),
                    _ => tok(Tk::P, junk),
                };
                let at = if s.chance(1, 3) { lines[i].toks.len() } else { j };
                lines[i].toks.insert(at, t);
            }
            "token added"
        }
        11 => {
            if let Some((i, j)) = pos_where(s, lines, |_| true) {
                let k = s.below(lines[i].toks.len());
                lines[i].toks.swap(j, k);
            }
            "tokens swapped"
        }
        12 => {
            let i = s.below(lines.len());
            let d = *s.pick(&[1usize, 2, 3, 4, 8]);
            if s.coin() {
                lines[i].indent += d
            } else {
                lines[i].indent = lines[i].indent.saturating_sub(d)
            }
            "indentation"
        }
        13 => {
            // drop a width
            if let Some((i, j)) = pos_where(s, lines, |t| t.s == "<") {
                let n = lines[i].toks.len();
                lines[i].toks.drain(j..(j + 3).min(n));
            }
            "width removed"
        }
        15 => {
            foreign(s, lines);
            "foreign construct"
        }
        _ => {
            let i = s.below(lines.len());
            let k = s.below(lines[i].toks.len() + 1);
            if s.coin() {
                lines[i].toks.truncate(k);
            } else {
                lines.truncate(i + 1);
                lines[i].toks.truncate(k);
            }
            "cut off"
        }
    }
}

fn s_any(s: &mut Src) -> bool {
    s.chance(1, 16)
}

const CHARS: &[&str] = &[
    "\n", " ", "  ", "\t", "\r", "\r\n", ":", ",", "(", ")", "[", "]", "{", "}", "<", ">", "=", "=>", "<=", "\"", "'", "\\", "%", ";", "@[", "]", ".", "-", "+", "0", "1", "65536",
    "9", "ä", "\u{0}", "\u{2028}", "\u{feff}", "𝒳", "\u{301}", "h", "b", "o", "\"h", "\"b", "flip ", "else :", "when ", "skip", "\n    ", "\n  ", "\n      skip", "E", "1.0E999", "<<", ">>", "circuit ", "module ",
];

fn at(s: &mut Src, t: &str) -> usize {
    let mut i = s.below(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1
    }
    i
}

/// Mutations of characters
pub fn harsh(s: &mut Src, t: &str) -> String {
    let mut t = t.to_string();
    for _ in 0..s.range(1, 4) {
        let (a, b) = (at(s, &t), at(s, &t));
        match s.below(7) {
            0 => t.truncate(a),
            1 => {
                let b = b.clamp(a.min(b), a.min(b) + 12);
                let mut b = b;
                while !t.is_char_boundary(b) {
                    b -= 1
                }
                let a = a.min(b);
                t.replace_range(a..b, "");
            }
            2 => {
                let (a, b) = (a.min(b), a.max(b));
                let x = t[a..b].chars().take(200).collect::<String>();
                t.insert_str(a, &x);
            }
            3 => {
                let (a, b) = (a.min(b), a.max(b));
                let x = t[a..b].to_string();
                t.replace_range(a..b, "");
                let k = at(s, &t);
                t.insert_str(k, &x);
            }
            4 => {
                let e = t[a..].chars().next().map(|c| a + c.len_utf8()).unwrap_or(a);
                t.replace_range(a..e, s.pick(CHARS));
            }
            _ => t.insert_str(a, s.pick(CHARS)),
        }
    }
    t
}

const VOCAB: &[&str] = &[
    "circuit", "module", "extmodule", "parameter", "defname", "input", "output", "wire", "reg", "node", "mem", "inst", "of", "is", "invalid",
    "when", "else", "skip", "stop", "printf", "attach", "cmem", "smem", "mport", "read", "write", "rdwr", "infer", "with", "reset", "flip", "old",
    "new", "undefined", "mux", "validif", "UInt", "SInt", "Fixed", "Clock", "Reset", "AsyncReset", "Analog", "data-type", "depth", "read-latency",
    "write-latency", "read-under-write", "reader", "writer", "readwriter", "(", ")", "[", "]", "{", "}", "<", ">", "<<", ">>", ",", ".", ":", "=", "=>", "<=", "<-", "0", "1",
    "8", "65535", "65536", "-1", "-32768", "x", "y", "z", "x", "y", "\"h1F\"", "\"b1\"", "\"text\"", "\"%d\"", "'s'", "@[i]", "@[", "]", ";", "1.5", "+1", "\\",
];

const SNIP: &[&str] = &[
    "wire x : UInt<8>", "wire y : {a : UInt<1>, flip b : SInt[3]}", "node x = UInt(1)", "node y = x", "x <= y", "x <- y.a", "y is invalid", "skip",
    "reg x : UInt<8>, asClock(UInt(1))", "reg x : UInt<8>, x with : (reset => (x, y))", "cmem z : UInt<8>[4]", "smem z : UInt<8>, new",
    "read mport x = z[y], x", "infer mport y = z[x] x", "inst x of x", "attach(x, y)", "stop(x, y, 1) : s", "printf(x, y, \"a%d\", x)", "when x :", "else :",
    "else when y :", "mem x :", "data-type => UInt<8>", "depth => 16", "reader => r", "node x = bits(y, 65535, 0)", "node x = shl(y, 65535)", "node x = dshl(x, y)",
    "node x = cat(x, x)", "node x = head(y, 3)", "node x = tail(x, 9)", "node x = UInt<0>(0)", "node x = SInt(-32768)", "node x = x.a[0][x]", "input x : UInt<8>",
    "output y : Fixed<8><<-4>>", "node x = incp(y, 65535)", "node x = setp(y, -32768)", "node x = mux(x, y, x)", "node x = validif(x, y)", "node x = asFixed(x, 32767)",
];

/// Soup of tokens and statement-like lines, somewhat structured
pub fn soup(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(3, 4) {
        t.push_str("circuit x :\n");
        if s.chance(3, 4) {
            t.push_str("  module x :\n    input x : UInt<8>\n    output y : Fixed<8><<4>>\n");
        }
    }
    let mut ind = 4usize;
    for _ in 0..s.range(1, 14) {
        t.push_str(&" ".repeat(ind));
        if s.chance(2, 3) {
            let l = *s.pick(SNIP);
            t.push_str(l);
            if l.ends_with(':') {
                ind += s.range(0, 2) * 2;
            } else if s.chance(1, 5) {
                ind = ind.saturating_sub(2);
            }
        } else {
            for _ in 0..s.range(1, 9) {
                t.push_str(s.pick(VOCAB));
                t.push_str(s.pick(&[" ", "", " ", "  ", "\t"]));
            }
            if s.chance(1, 4) {
                ind = s.below(5) * 2;
            }
        }
        t.push_str(s.pick(&["\n", "\n", "\n", "\r\n", "\n\n", "", " ; c\n"]));
    }
    t
}

/// Arbitrary characters
pub fn noise(s: &mut Src) -> String {
    let mut t = if s.coin() { String::new() } else { "circuit x :\n  module x :\n    ".to_string() };
    for _ in 0..s.range(0, 60) {
        match s.below(3) {
            0 => t.push_str(s.pick(CHARS)),
            1 => t.push((s.below(128) as u8) as char),
            _ => t.push(char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    t
}


// ------------------------------------------------- alterations of circuits

/// Parts of a circuit which are in some order
trait List {
    fn len(&self) -> usize;
    fn swap(&mut self, i: usize, j: usize);
    fn double(&mut self, i: usize);
    fn remove(&mut self, i: usize);
}

impl<T: Clone> List for Vec<T> {
    fn len(&self) -> usize {
        Vec::len(self)
    }
    fn swap(&mut self, i: usize, j: usize) {
        self.as_mut_slice().swap(i, j)
    }
    fn double(&mut self, i: usize) {
        let x = self[i].clone();
        self.insert(i, x)
    }
    fn remove(&mut self, i: usize) {
        Vec::remove(self, i);
    }
}

/// Parts of fixed number
struct Fixed<'a>(Vec<&'a mut Ex>);

impl List for Fixed<'_> {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn swap(&mut self, i: usize, j: usize) {
        if i != j {
            let (i, j) = (i.min(j), i.max(j));
            let (a, b) = self.0.split_at_mut(j);
            std::mem::swap(a[i], b[0]);
        }
    }
    fn double(&mut self, i: usize) {
        let x = self.0[i].clone();
        let j = if i == 0 { self.0.len() - 1 } else { 0 };
        *self.0[j] = x;
    }
    fn remove(&mut self, i: usize) {
        self.double(i)
    }
}

type Visit<'a> = &'a mut dyn FnMut(&mut dyn List);

fn lists_ty(t: &mut Ty, f: Visit) {
    match t {
        Ty::G(_) => (),
        Ty::V(t, _) => lists_ty(t, f),
        Ty::B(v) => {
            v.iter_mut().for_each(|x| lists_ty(&mut x.ty, f));
            f(v)
        }
    }
}

fn lists_ex(e: &mut Ex, f: Visit) {
    match e {
        Ex::U(..) | Ex::S(..) | Ex::Ref(_) => (),
        Ex::Field(b, _) | Ex::Index(b, _) => lists_ex(b, f),
        Ex::Access(a, b) | Ex::ValidIf(a, b) => {
            lists_ex(a, f);
            lists_ex(b, f);
            f(&mut Fixed(vec![a, b]));
        }
        Ex::Mux(a, b, c) => {
            lists_ex(a, f);
            lists_ex(b, f);
            lists_ex(c, f);
            f(&mut Fixed(vec![a, b, c]));
        }
        Ex::Op(_, v, p) => {
            v.iter_mut().for_each(|x| lists_ex(x, f));
            f(&mut Fixed(v.iter_mut().collect()));
            if let [a, b] = &mut p[..] {
                let mut v = vec![*a, *b];
                f(&mut v);
                if v.len() == 2 && v[0] >= v[1] {
                    (*a, *b) = (v[0], v[1]);
                }
            }
        }
    }
}

fn lists_st(v: &mut Vec<St>, f: Visit) {
    for s in v.iter_mut() {
        match &mut s.k {
            Sk::Connect(a, b) | Sk::Partial(a, b) => {
                lists_ex(a, f);
                lists_ex(b, f);
                f(&mut Fixed(vec![a, b]));
            }
            Sk::Skip => (),
            Sk::Decl(d) => match d {
                De::Wire(_, t) => lists_ty(t, f),
                De::Reg { ty, clk, reset, .. } => {
                    lists_ty(ty, f);
                    lists_ex(clk, f);
                    if let Some((a, b)) = reset {
                        lists_ex(a, f);
                        lists_ex(b, f);
                        f(&mut Fixed(vec![clk, a, b]));
                    }
                }
                De::Node(_, e) => lists_ex(e, f),
                De::Mem(m) => {
                    lists_ty(&mut m.ty, f);
                    f(&mut m.ports)
                }
                De::MPort { addr, clk, .. } => {
                    lists_ex(addr, f);
                    lists_ex(clk, f);
                    f(&mut Fixed(vec![addr, clk]));
                }
                De::Inst { .. } => (),
            },
            Sk::SMem(_, t, _) => {
                if let Ty::V(t, _) = t {
                    lists_ty(t, f)
                }
            }
            Sk::Invalid(e) => lists_ex(e, f),
            Sk::Attach(v) => {
                v.iter_mut().for_each(|x| lists_ex(x, f));
                let mut w = v.clone();
                f(&mut w);
                if !w.is_empty() {
                    *v = w
                }
            }
            Sk::When(c, a, b) => {
                lists_ex(c, f);
                lists_st(a, f);
                lists_st(b, f);
                let mut w = vec![std::mem::take(a), std::mem::take(b)];
                f(&mut w);
                w.resize(2, vec![]);
                *b = w.pop().unwrap();
                *a = w.pop().unwrap();
            }
            Sk::Stop { clk, cond, .. } => {
                lists_ex(clk, f);
                lists_ex(cond, f);
                f(&mut Fixed(vec![clk, cond]));
            }
            Sk::Print { clk, cond, msg, .. } => {
                lists_ex(clk, f);
                lists_ex(cond, f);
                f(&mut Fixed(vec![clk, cond]));
                let vals: Vec<&mut Ex> = msg.iter_mut().filter_map(|p| if let Pe::Val(e, _) = p { Some(e) } else { None }).collect();
                f(&mut Fixed(vals));
            }
        }
    }
    f(v)
}

fn lists(c: &mut Circuit, f: Visit) {
    for m in &mut c.mods {
        for p in &mut m.ports {
            lists_ty(&mut p.ty, f)
        }
        f(&mut m.ports);
        match &mut m.kind {
            Mk::Reg(v) => lists_st(v, f),
            Mk::Ext { params, .. } => {
                let keys: Vec<N> = params.keys().cloned().collect();
                let mut vals: Vec<Pv> = params.values().cloned().collect();
                f(&mut vals);
                *params = keys.into_iter().zip(vals).collect();
            }
        }
    }
}

/// Swap, double or drop parts of the circuit at one place. The result may
/// well make no sense, i.e. refer to things which are not declared.
pub fn rearrange(s: &mut Src, c: &mut Circuit) {
    let mut n = 0;
    lists(c, &mut |l| n += (l.len() > 1) as usize);
    if n == 0 {
        return;
    }
    let mut at = s.below(n);
    let how = s.below(4);
    lists(c, &mut |l| {
        let len = l.len();
        if len < 2 {
            return;
        }
        if at == 0 {
            let i = s.below(len);
            match how {
                0 => l.swap(i, (i + 1) % len),
                1 => {
                    let j = s.below(len);
                    l.swap(i, j)
                }
                2 => l.double(i),
                _ => l.remove(i),
            }
        }
        at = at.wrapping_sub(1);
    });
}
