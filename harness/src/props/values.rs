//! Literals, strings, numbers

use num_bigint::{BigInt, BigUint, Sign};
use std::collections::BTreeMap;

use firrtl_ast::circuit::parse;

use super::*;
use crate::conv::{b_circuit, lift};
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{min_signed_bits, Gen, Opts};
use crate::render::{assemble, Render, PLAIN};
use crate::tape::Src;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C18",
        rule: "integers of random magnitude and sign are written in random notation (decimal, binary, octal, hexadecimal, signs, leading zeros, letter case) with or without a width, among them some which cannot be literals; non-trivial: the value is not 0 or 1, or the text is to be rejected",
        quick: 1_250_000,
        thorough: 40_000_000,
        run: c18,
    },
    Prop {
        id: "C20",
        rule: "random strings of plain, delimiting, escaping, control and non-ASCII characters are put in every place for free-form strings, printed and parsed, and random sequences of raw and escaped characters are parsed; non-trivial: at least one character that needs escaping or is outside of printable ASCII",
        quick: 500_000,
        thorough: 20_000_000,
        run: c20,
    },
    Prop {
        id: "C22",
        rule: "for every place of a number in the grammar, numbers in and out of its range (extreme ones, those off by one or by a power of two, malformed ones) are parsed, and floating point numbers are compared with their neighbours in exact arithmetic; non-trivial: the number is not a small one, or the text is to be rejected",
        quick: 5_000_000,
        thorough: 160_000_000,
        run: c22,
    },
];

fn one_module(ports: Vec<Port>, stmts: Vec<St>) -> Circuit {
    Circuit { top: n("x"), info: None, mods: vec![Module { name: n("x"), info: None, ports, kind: Mk::Reg(stmts) }] }
}

fn st(k: Sk) -> St {
    St { k, info: None }
}

/// Number of rendered tokens replaced by the given texts
fn substitute(lines: &mut [crate::render::Line], f: &mut dyn FnMut(&str) -> Option<String>) -> usize {
    let mut k = 0;
    for l in lines {
        for t in &mut l.toks {
            if let Some(x) = f(&t.s) {
                t.s = x;
                k += 1;
            }
        }
    }
    k
}

// ------------------------------------------------------------------- C18

fn magnitude(s: &mut Src) -> BigUint {
    match s.below(64) {
        0 => {
            // around the widest type
            let e = s.range(65533, 65538);
            let v = BigUint::from(1u8) << e;
            match s.below(3) {
                0 => v,
                1 => v - 1u8,
                _ => v + 1u8,
            }
        }
        1 => {
            let bits = s.range(300, 5000);
            let v: Vec<u32> = (0..bits / 32 + 1).map(|_| s.below(1 << 32) as u32).collect();
            BigUint::new(v)
        }
        k if k < 12 => BigUint::from(s.range(0, 9)),
        k if k < 24 => {
            let e = s.range(0, 130);
            let v = BigUint::from(1u8) << e;
            match s.below(3) {
                0 => v,
                1 => v - 1u8,
                _ => v + 1u8,
            }
        }
        _ => Gen::new(s, Opts::full(2)).biguint(400),
    }
}

const RADIX: [(u32, &str); 4] = [(10, ""), (2, "b"), (8, "o"), (16, "h")];

/// Digits, most significant first, computed by repeated division
fn digits(v: &BigUint, radix: u32, s: &mut Src) -> String {
    let upper = s.below(3);
    let raw = if v.bits() < 2000 {
        let mut v = v.clone();
        let mut d = vec![];
        while !(v.bits() == 0) {
            let r = (&v % radix).to_u32_digits().first().copied().unwrap_or(0);
            d.push(std::char::from_digit(r, radix).unwrap());
            v /= radix;
        }
        if d.is_empty() {
            d.push('0')
        }
        d.iter().rev().collect::<String>()
    } else {
        v.to_str_radix(radix)
    };
    let raw: String = raw
        .chars()
        .map(|c| match upper {
            1 => c.to_ascii_uppercase(),
            2 if s.coin() => c.to_ascii_uppercase(),
            _ => c,
        })
        .collect();
    let zeros = if s.chance(1, 5) { s.range(1, 5) } else { 0 };
    "0".repeat(zeros) + &raw
}

fn write_literal(s: &mut Src, neg: bool, v: &BigUint, notation: usize) -> String {
    let (radix, tag) = RADIX[notation];
    let d = digits(v, radix, s);
    let sign = if neg {
        "-"
    } else if s.chance(1, 5) {
        "+"
    } else {
        ""
    };
    if radix == 10 {
        format!("{}{}", sign, d)
    } else {
        format!("\"{}{}{}\"", tag, sign, d)
    }
}

/// Places for literals: the text around, and how to find the literal again
fn literal_at(place: usize, e: Ex) -> St {
    let a = || Ex::Ref(n("a"));
    st(match place {
        0 => Sk::Decl(De::Node(n("y"), e)),
        1 => Sk::Connect(a(), e),
        2 => Sk::Decl(De::Node(n("y"), Ex::Op(Op::Add, vec![a(), e], vec![]))),
        3 => Sk::Decl(De::Node(n("y"), Ex::Op(Op::Pad, vec![e], vec![4]))),
        4 => Sk::Decl(De::Node(n("y"), Ex::Access(Box::new(a()), Box::new(e)))),
        5 => Sk::Decl(De::Node(n("y"), Ex::Mux(Box::new(e), Box::new(a()), Box::new(a())))),
        6 => Sk::Stop { name: None, clk: a(), cond: e, code: 0 },
        7 => Sk::Print { name: None, clk: a(), cond: a(), msg: vec![Pe::Val(e, Fmt::X)] },
        8 => Sk::When(e, vec![st(Sk::Skip)], vec![]),
        _ => Sk::Decl(De::Reg { name: n("y"), ty: Ty::G(Gt::UInt(None)), clk: a(), reset: Some((a(), e)) }),
    })
}

fn c18(cx: &mut Cx) -> Res {
    let signed = cx.src.coin();
    let v = magnitude(&mut cx.src);
    let neg = signed && cx.src.coin() && !(v.bits() == 0);
    let bits = if signed {
        min_signed_bits(&BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v.clone()))
    } else {
        v.bits()
    };
    // minimum number of bits, independently: the smallest range holding the value
    if bits < 300 {
        let one = BigInt::from(1u8);
        let x = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v.clone());
        let fits = |w: u64| {
            if signed {
                w > 0 && x >= -(&one << (w - 1)) && x < (&one << (w - 1))
            } else {
                x < (&one << w)
            }
        };
        if !(fits(bits) && (bits == 0 || !fits(bits - 1))) {
            return fail("HARNESS: minimum width", format!("{} {}", x, bits));
        }
    }
    let given = if cx.src.coin() { Some(cx.src.below(65536) as u16) } else { None };
    let given = given.map(|w| match cx.src.below(4) {
        0 => w,
        1 => *cx.src.pick(&crate::gen::WIDTHS),
        // close to what is needed
        _ => (bits + (w % 9) as u64).saturating_sub((w / 9 % 4) as u64).min(65535) as u16,
    });
    let place = cx.src.below(10);
    let kind = if signed { "SInt" } else { "UInt" };
    let port = Port { name: n("a"), input: true, ty: Ty::G(Gt::UInt(Some(8))), info: None };
    let sentinel = "NUMBER";
    let head = match given {
        Some(w) => format!("{}<{}>", kind, w),
        None => kind.to_string(),
    };
    // text with a placeholder, filled in with each of the notations
    let c = one_module(vec![port.clone()], vec![literal_at(place, Ex::Ref(n(sentinel)))]);
    let text_for = |s: &mut Src, lit: &str| -> String {
        let mut r = Render::new(s, PLAIN);
        r.circuit(&c);
        let mut lines = r.lines;
        let k = substitute(&mut lines, &mut |t| if t == sentinel { Some(format!("{}({})", head, lit)) } else { None });
        assert!(k == 1, "HARNESS: placeholder");
        assemble(s, &lines, false).text
    };
    let big = bits > 65535;
    if big {
        cx.count("too wide for any type")
    }
    if !(v.bits() == 0) && v != BigUint::from(1u8) {
        cx.nontrivial(&(neg, signed, v.clone(), given, place));
    }
    let rounds = if v.bits() > 2000 { 1 } else { 2 };
    for _ in 0..rounds {
        let notation = cx.src.below(4);
        cx.count(["decimal", "binary", "octal", "hexadecimal"][notation]);
        let lit = write_literal(&mut cx.src, neg, &v, notation);
        let text = text_for(&mut cx.src, &lit);
        if text.len() < 1000 {
            cx.sample(|| text.clone());
        }
        cx.checks(1);
        let r = parse(&text);
        if given.is_none() && big {
            ensure!(r.is_err(), text, "a literal of {} bits was accepted without width", bits);
            continue;
        }
        let got = match r.map_err(|e| e.to_string()).and_then(|c| lift(&c)) {
            Ok(g) => g,
            Err(e) => return fail(format!("literal rejected: {}", e.lines().last().unwrap_or("")), text),
        };
        let lit_of = |w: u16| {
            if signed {
                Ex::S(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v.clone()), w)
            } else {
                Ex::U(v.clone(), w)
            }
        };
        let want = |w: u16| one_module(vec![port.clone()], vec![literal_at(place, lit_of(w))]).reachable();
        let w = given.unwrap_or(bits.min(65535) as u16);
        // FIRRTL: an unsigned zero may be said to need no or one bit
        let alt = given.is_none() && !signed && (v.bits() == 0) && got == want(1);
        if !alt {
            let want = want(w);
            ensure!(got == want, text, "literal differs: {}", diff(&want, &got));
        }
        // and it survives being printed
        if v.bits() < 2000 {
            let model = one_module(vec![port.clone()], vec![literal_at(place, lit_of(w))]);
            let text = b_circuit(&model).to_string();
            cx.checks(1);
            match read_back(&text) {
                Err(e) => return fail(e, text),
                Ok(x) => ensure!(x == model.reachable(), text, "printed literal differs: {}", diff(&model.reachable(), &x)),
            }
        }
    }
    // what is not a literal
    let bad = match cx.src.below(12) {
        9..=11 => {
            // the quotes, the letter of the radix and the place of the sign
            let notation = cx.src.range(1, 3);
            let small = if v.bits() > 2000 { BigUint::from(5u8) } else { v.clone() };
            let lit = write_literal(&mut cx.src, neg, &small, notation);
            let (letter, digits) = (lit[1..2].to_string(), lit[2..lit.len() - 1].to_string());
            let quote = *cx.src.pick(&["", "'", "\"\"", "`", "\\\"", " \" "]);
            let other = *cx.src.pick(&["H", "B", "O", "d", "D", "x", "X", "0x", "0b", "0h", "", "hh", "H0", "q", "#", "16r", "ｈ", "+h", "-h", "+b", "-o", " h", "h ", "b ", "h\t", "h_"]);
            match cx.src.below(6) {
                0 => format!("{}{}{}\"", quote, letter, digits),
                1 => format!("\"{}{}{}", letter, digits, quote),
                2 => format!("{}{}{}{}", quote, letter, digits, quote),
                // an empty letter may leave a valid literal behind
                3 | 4 if !(other.is_empty() && digits.starts_with(|c: char| "boh".contains(c))) => format!("\"{}{}\"", other, digits),
                5 => format!("{}{}", cx.src.pick(&["-", "+", "~", "0"]), lit),
                _ => format!("\"{}{}{}\"", letter, digits, cx.src.pick(&[" ", "_", "u", ".", "h", "\t", "\\n", "'"])),
            }
        }
        0 if !signed => {
            let v = if v.bits() == 0 { BigUint::from(1u8) } else { v.clone() };
            let k = cx.src.below(4);
            write_literal(&mut cx.src, true, &v, k)
        }
        k if k <= 6 => {
            let notation = cx.src.below(4);
            let (radix, _) = RADIX[notation];
            let small = if v.bits() > 2000 { BigUint::from(5u8) } else { v.clone() };
            let lit = write_literal(&mut cx.src, neg, &small, notation);
            let digits: Vec<usize> = {
                let skip = if radix == 10 { 0 } else { 2 };
                lit.char_indices().filter(|(i, c)| *i >= skip && c.is_ascii_alphanumeric()).map(|(i, _)| i).collect()
            };
            let i = *cx.src.pick(&digits);
            let bad: &[&str] = match radix {
                2 => &["2", "9", "a", "z", "_", " ", ".", "", "²", "１", "-", "+"],
                8 => &["8", "9", "a", "z", "_", " ", ".", "", "²", "١", "-", "+"],
                16 => &["g", "z", "G", "_", " ", ".", "", "²", "１", "-", "+", "x"],
                _ => &["a", "x", "_", " 1", ".", "", "²", "１", "-", "+", "e", "\""],
            };
            let b = *cx.src.pick(bad);
            // an omitted digit or a sign in front matters only if it is the sole digit
            let first = i == digits[0];
            if b.is_empty() || b == "-" || b == "+" {
                if digits.len() == 1 && b.is_empty() {
                    lit.replacen(&lit[i..i + 1], "", 1)
                } else if b.is_empty() {
                    "\"q1\"".into()
                } else if first {
                    format!("{}{}{}", &lit[..i], "+-", &lit[i..])
                } else {
                    format!("{}{}{}", &lit[..i], b, &lit[i..])
                }
            } else if b == " 1" || b == " " || b == "." {
                if first {
                    format!("{}{}{}", &lit[..i + 1], b, &lit[i..])
                } else {
                    format!("{}{}{}", &lit[..i], b, &lit[i..])
                }
            } else {
                format!("{}{}{}", &lit[..i], b, &lit[i + 1..])
            }
        }
        _ => (*cx.src.pick(&["", "\"\"", "\"h\"", "\"b\"", "\"o-\"", "\"h+\"", "+", "-", "a", "h1", "\"h1", "h1\"", "'h1'", "0x1", "\"1\"", "--1", "1.0", "\"h1\" 1", "\"b0b1\""])).into(),
    };
    let text = text_for(&mut cx.src, &bad);
    cx.checks(1);
    cx.count("to be rejected");
    cx.nontrivial(&(signed, &bad, given));
    ensure!(parse(&text).is_err(), text, "{} was accepted as a literal of kind {}", bad, kind);
    Ok(())
}

// ------------------------------------------------------------------- C20

fn special(c: char) -> bool {
    !(c.is_ascii_graphic() || c == ' ') || "\"'\\%[]".contains(c)
}

/// A circuit with strings at all places
fn stringy(f: &mut dyn FnMut(&'static str) -> String) -> Circuit {
    let u = |w: u16| Ty::G(Gt::UInt(Some(w)));
    let a = || Ex::Ref(n("a"));
    let mut info = |p: &'static str| Some(f(p));
    let port = Port { name: n("a"), input: true, ty: u(8), info: info("port info") };
    let mut v = vec![];
    let mut add = |k: Sk, i: Option<String>| v.push(St { k, info: i });
    add(Sk::Decl(De::Wire(n("w"), u(1))), info("wire info"));
    add(
        Sk::Decl(De::Mem(Mem { name: n("m"), ty: u(8), depth: 4, ports: vec![], rl: 0, wl: 1, ruw: Ruw::Old })),
        info("memory info"),
    );
    add(Sk::Decl(De::Reg { name: n("r"), ty: u(8), clk: a(), reset: None }), info("register info"));
    add(Sk::Decl(De::Reg { name: n("q"), ty: u(8), clk: a(), reset: Some((a(), a())) }), info("register info"));
    add(Sk::Decl(De::Node(n("b"), a())), info("node info"));
    add(Sk::SMem(n("s"), Ty::V(Box::new(u(1)), 4), SmKind::S(None)), info("memory info"));
    add(Sk::Decl(De::MPort { name: n("p"), mem: n("s"), dir: None, addr: a(), clk: a() }), info("memory port info"));
    add(Sk::Decl(De::Inst { name: n("i"), module: n("e") }), info("instance info"));
    add(Sk::Connect(a(), a()), info("connection info"));
    add(Sk::Partial(a(), a()), info("partial connection info"));
    add(Sk::Invalid(a()), info("invalidation info"));
    add(Sk::Attach(vec![a(), a()]), info("attachment info"));
    let (x, y) = (info("info in a branch"), info("info in a branch"));
    let z = info("info of a nested conditional");
    add(
        Sk::When(
            a(),
            vec![St { k: Sk::Skip, info: x }],
            vec![St { k: Sk::When(a(), vec![st(Sk::Skip)], vec![St { k: Sk::Skip, info: y }]), info: z }],
        ),
        info("conditional info"),
    );
    add(Sk::Stop { name: None, clk: a(), cond: a(), code: 1 }, info("stop info"));
    let pi = info("printf info");
    let mi = info("module info");
    let ei = info("external module info");
    let ci = info("circuit info");
    let mut params = BTreeMap::new();
    for p in ["p", "q", "P1"] {
        params.insert(n(p), Pv::Str(f("parameter")));
    }
    let ext = Module { name: n("e"), info: ei, ports: vec![], kind: Mk::Ext { defname: None, params } };
    let mut msg = vec![];
    for i in 0..4 {
        let s = f("format string");
        if !s.is_empty() {
            msg.push(Pe::Lit(s));
        }
        if i < 3 {
            msg.push(Pe::Val(a(), [Fmt::B, Fmt::C, Fmt::X][i]));
        }
    }
    add(Sk::Print { name: None, clk: a(), cond: a(), msg }, pi);
    let s = f("format string");
    let msg = if s.is_empty() { vec![] } else { vec![Pe::Lit(s)] };
    add(Sk::Print { name: Some(n("pp")), clk: a(), cond: a(), msg }, None);
    Circuit {
        top: n("x"),
        info: ci,
        mods: vec![ext, Module { name: n("x"), info: mi, ports: vec![port], kind: Mk::Reg(v) }],
    }
}

fn c20(cx: &mut Cx) -> Res {
    let s = &mut cx.src;
    // strings survive
    let mut all = vec![];
    let every = s.coin();
    let c = stringy(&mut |_| {
        let mut t = if every || s.chance(1, 4) { crate::gen::string(s, true) } else { "x".into() };
        if s.chance(1, 1500) {
            // a long one, special characters anywhere
            let k = *s.pick(&[70, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 8192, 65536]);
            let (a, b) = (crate::gen::string(s, true), crate::gen::string(s, true));
            let fill = *s.pick(&["z", "ä", "\\", "]", "%", " ", "\n"]);
            t = format!("{}{}{}{}", a, fill.repeat(k), t, b);
        }
        all.push(t.clone());
        t
    });
    let hard = all.iter().any(|t| t.chars().any(special));
    let text = b_circuit(&c).to_string();
    let plain = {
        let mut k = 0;
        // the same circuit without any peculiar character
        let c = stringy(&mut |_| {
            k += 1;
            if all[k - 1].is_empty() { String::new() } else { "x".into() }
        });
        b_circuit(&c).to_string()
    };
    let lines = |t: &str| t.split('\n').count();
    cx.checks(2);
    ensure!(lines(&text) == lines(&plain), text, "printed on {} lines instead of {}", lines(&text), lines(&plain));
    match read_back(&text) {
        Err(e) => return fail(format!("printed strings: {}", e), text),
        Ok(v) => {
            let want = c.reachable();
            ensure!(v == want, text, "strings differ after printing and parsing: {}", diff(&want, &v));
        }
    }
    // escape sequences are decoded
    let s = &mut cx.src;
    let place = s.below(4);
    let (open, close, delim) = [("@[", "]", ']'), ("\"", "\"", '"'), ("'", "'", '\''), ("\"", "\"", '"')][place];
    let format = place == 3;
    let k = s.range(0, 12);
    let (mut raw, mut want) = (String::new(), String::new());
    let mut msg: Vec<Pe> = vec![];
    let mut escapes = 0;
    for _ in 0..k {
        let c = loop {
            let t = crate::gen::string(s, true);
            if let Some(c) = t.chars().next() {
                break c;
            }
            if s.chance(1, 3) {
                break 'x';
            }
        };
        match s.below(6) {
            0 => {
                raw.push_str("\\n");
                want.push('\n');
                escapes += 1;
            }
            1 => {
                raw.push_str("\\t");
                want.push('\t');
                escapes += 1;
            }
            2 => {
                // any escaped character but those of the sequences above, or a line's end
                let c = if "nt\n\r".contains(c) { '\\' } else { c };
                raw.push('\\');
                raw.push(c);
                want.push(c);
                escapes += 1;
            }
            3 if format => {
                raw.push_str("%%");
                want.push('%');
                escapes += 1;
            }
            4 if format => {
                let (f, t) = *s.pick(&[(Fmt::B, "%b"), (Fmt::D, "%d"), (Fmt::X, "%x"), (Fmt::C, "%c")]);
                raw.push_str(t);
                if !want.is_empty() {
                    msg.push(Pe::Lit(std::mem::take(&mut want)));
                }
                msg.push(Pe::Val(Ex::Ref(n("a")), f));
            }
            _ => {
                let c = if "\n\t\\".contains(c) || c == delim || (format && c == '%') { 'n' } else { c };
                raw.push(c);
                want.push(c);
            }
        }
    }
    if format && !want.is_empty() {
        msg.push(Pe::Lit(want.clone()));
    }
    let port = Port { name: n("a"), input: true, ty: Ty::G(Gt::UInt(Some(8))), info: None };
    let written = format!("{}{}{}", open, raw, close);
    let vals = msg.iter().filter(|p| matches!(p, Pe::Val(..))).count();
    let (text, model) = match place {
        0 => {
            let mut i = (None, None, None, None);
            let w = Some(want.clone());
            let at = s.below(4);
            let h = |k: usize| if k == at { format!(" {}", written) } else { String::new() };
            let text = format!("circuit x :{}\n  module x :{}\n    input a : UInt<8>{}\n    skip{}\n", h(0), h(1), h(2), h(3));
            match at {
                0 => i.0 = w,
                1 => i.1 = w,
                2 => i.2 = w,
                _ => i.3 = w,
            }
            let mut c = one_module(vec![Port { info: i.2, ..port }], vec![St { k: Sk::Skip, info: i.3 }]);
            c.info = i.0;
            c.mods[0].info = i.1;
            (text, c)
        }
        1 | 2 => {
            let params = [(n("p"), Pv::Str(want.clone()))].into_iter().collect();
            let text = format!("circuit x :\n  extmodule x :\n    input a : UInt<8>\n    parameter p = {}\n", written);
            let m = Module { name: n("x"), info: None, ports: vec![port], kind: Mk::Ext { defname: None, params } };
            (text, Circuit { top: n("x"), info: None, mods: vec![m] })
        }
        _ => {
            let text = format!(
                "circuit x :\n  module x :\n    input a : UInt<8>\n    printf(a, a, {}{})\n",
                written,
                ", a".repeat(vals)
            );
            let m = Sk::Print { name: None, clk: Ex::Ref(n("a")), cond: Ex::Ref(n("a")), msg: msg.clone() };
            (text, one_module(vec![port], vec![st(m)]))
        }
    };
    cx.count(["info", "double quotes", "single quotes", "format string"][place]);
    cx.add("escape sequences", escapes);
    cx.sample(|| text.clone());
    cx.checks(1);
    match read_back(&text) {
        Err(e) => return fail(format!("escaped string: {}", e), text),
        Ok(v) => {
            let want = model.reachable();
            ensure!(v == want, text, "decoded string differs: {}", diff(&want, &v));
        }
    }
    if hard || raw.chars().any(special) {
        cx.nontrivial(&(all, raw));
    }
    Ok(())
}

// ------------------------------------------------------------------- C22

const SENTINEL: i128 = 4711;

/// The places for integers with their ranges
const PLACES: &[(&str, i128, i128)] = &[
    ("width of UInt", 0, 65535),
    ("width of SInt", 0, 65535),
    ("width of Analog", 0, 65535),
    ("width of Fixed", 0, 65535),
    ("binary point of Fixed", -32768, 32767),
    ("binary point of Fixed without width", -32768, 32767),
    ("width of a field", 0, 65535),
    ("vector length", 0, 65535),
    ("outer vector length", 0, 65535),
    ("width of a UInt literal", 0, 65535),
    ("width of an SInt literal", 0, 65535),
    ("sub-index", 0, 65535),
    ("second sub-index", 0, 65535),
    ("pad", 0, 65535),
    ("shl", 0, 65535),
    ("shr", 0, 65535),
    ("head", 0, 65535),
    ("tail", 0, 65535),
    ("bits high", 0, 65535),
    ("bits low", 0, 65535),
    ("incp", 0, 65535),
    ("decp", 0, 65535),
    ("asFixed", -32768, 32767),
    ("setp", -32768, 32767),
    ("depth", 0, u64::MAX as i128),
    ("read latency", 0, 65535),
    ("write latency", 0, 65535),
    ("exit code", i64::MIN as i128, i64::MAX as i128),
    ("integer parameter", i64::MIN as i128, i64::MAX as i128),
    ("length of a simple memory", 0, 65535),
    ("width of a port", 0, 65535),
];

fn at_place(k: usize, v: i128) -> Circuit {
    let w = v as u16;
    let p = v as i16;
    let g = |g: Gt| Ty::G(g);
    let a = || Ex::Ref(n("a"));
    let ba = || Box::new(Ex::Ref(n("a")));
    let wire = |t: Ty| Sk::Decl(De::Wire(n("y"), t));
    let node = |e: Ex| Sk::Decl(De::Node(n("y"), e));
    let op = |o: Op, v: Vec<i64>| Sk::Decl(De::Node(n("y"), Ex::Op(o, vec![Ex::Ref(n("a"))], v)));
    let mem = |f: &dyn Fn(&mut Mem)| {
        let mut m = Mem { name: n("y"), ty: Ty::G(Gt::UInt(Some(8))), depth: 9, ports: vec![(n("r"), PDir::Read)], rl: 1, wl: 2, ruw: Ruw::Undefined };
        f(&mut m);
        Sk::Decl(De::Mem(m))
    };
    let mut port = Port { name: n("a"), input: true, ty: g(Gt::UInt(Some(8))), info: None };
    let k = match PLACES[k].0 {
        "width of UInt" => wire(g(Gt::UInt(Some(w)))),
        "width of SInt" => wire(g(Gt::SInt(Some(w)))),
        "width of Analog" => wire(g(Gt::Analog(Some(w)))),
        "width of Fixed" => wire(g(Gt::Fixed(Some(w), Some(3)))),
        "binary point of Fixed" => wire(g(Gt::Fixed(Some(8), Some(p)))),
        "binary point of Fixed without width" => wire(g(Gt::Fixed(None, Some(p)))),
        "width of a field" => wire(Ty::B(vec![
            Fl { name: n("f"), flip: false, ty: g(Gt::Clock) },
            Fl { name: n("g"), flip: true, ty: g(Gt::SInt(Some(w))) },
        ])),
        "vector length" => wire(Ty::V(Box::new(Ty::V(Box::new(g(Gt::Clock)), w)), 5)),
        "outer vector length" => wire(Ty::V(Box::new(Ty::V(Box::new(g(Gt::Clock)), 5)), w)),
        "width of a UInt literal" => node(Ex::U(5u8.into(), w)),
        "width of an SInt literal" => node(Ex::S((-5).into(), w)),
        "sub-index" => node(Ex::Index(ba(), w)),
        "second sub-index" => node(Ex::Index(Box::new(Ex::Index(ba(), 3)), w)),
        "pad" => op(Op::Pad, vec![w as i64]),
        "shl" => op(Op::Shl, vec![w as i64]),
        "shr" => op(Op::Shr, vec![w as i64]),
        "head" => op(Op::Head, vec![w as i64]),
        "tail" => op(Op::Tail, vec![w as i64]),
        "bits high" => op(Op::Bits, vec![w as i64, 1]),
        "bits low" => op(Op::Bits, vec![1, w as i64]),
        "incp" => op(Op::Incp, vec![w as i64]),
        "decp" => op(Op::Decp, vec![w as i64]),
        "asFixed" => op(Op::AsFixed, vec![p as i64]),
        "setp" => op(Op::Setp, vec![p as i64]),
        "depth" => mem(&|m| m.depth = v as u64),
        "read latency" => mem(&|m| m.rl = w),
        "write latency" => mem(&|m| m.wl = w),
        "exit code" => Sk::Stop { name: None, clk: a(), cond: a(), code: v as i64 },
        "length of a simple memory" => Sk::SMem(n("y"), Ty::V(Box::new(g(Gt::Clock)), w), SmKind::C),
        "width of a port" => {
            port.ty = g(Gt::UInt(Some(w)));
            Sk::Skip
        }
        _ => {
            let params = [(n("p"), Pv::Int(v as i64)), (n("q"), Pv::Int(1))].into_iter().collect();
            let m = Module { name: n("x"), info: None, ports: vec![port], kind: Mk::Ext { defname: None, params } };
            return Circuit { top: n("x"), info: None, mods: vec![m] };
        }
    };
    one_module(vec![port], vec![st(k)])
}

fn c22(cx: &mut Cx) -> Res {
    if cx.src.chance(1, 4) {
        return doubles(cx);
    }
    let k = cx.src.below(PLACES.len());
    let (what, lo, hi) = PLACES[k];
    let s = &mut cx.src;
    let pow = |s: &mut Src| -> i128 {
        let e = *s.pick(&[8u32, 15, 16, 31, 32, 63, 64, 65, 33, 17]);
        1i128 << e
    };
    let v: i128 = match s.below(9) {
        0 => lo,
        1 => hi,
        2 => lo - 1 - s.below(3) as i128,
        3 => hi + 1 + s.below(3) as i128,
        4 => s.range(0, 20) as i128,
        5 => {
            let d = s.range(0, 4) as i128 - 2;
            let v = pow(s) + d;
            if s.coin() { -v } else { v }
        }
        6 => {
            // a number in range plus a multiple of a power of two
            let b = s.below(100) as i128;
            b + pow(s) * (1 + s.below(3) as i128)
        }
        7 => {
            let r = s.u64() as i128;
            let sh = s.below(64);
            if s.coin() { r >> sh } else { -(r >> sh) }
        }
        _ => (s.u64() as i128) * (s.below(1 << 40) as i128),
    };
    let num = {
        let mut d = v.unsigned_abs().to_string();
        if s.chance(1, 6) {
            d = "0".repeat(s.range(1, 4)) + &d;
        }
        if v < 0 {
            format!("-{}", d)
        } else if s.chance(1, 8) {
            format!("+{}", d)
        } else {
            d
        }
    };
    let garbled = s.chance(1, 8);
    let fits = v >= lo && v <= hi;
    let num = if garbled {
        let i = s.below(14);
        let mut g = ["", "-", "+", "--1", "+-1", "1_000", "0x10", "1e3", "１", "²", "1 2", "a", "\"h1\"", "\"1\""][i].to_string();
        if what == "integer parameter" && i >= 12 {
            // a quoted number is a string parameter
            g = "1-1".into();
        }
        // an index which is not a number is an expression
        if what.ends_with("sub-index") && i == 11 {
            g = "zz".into();
        }
        g
    } else {
        num
    };
    let mut r = Render::new(s, PLAIN);
    r.circuit(&at_place(k, SENTINEL));
    let mut lines = r.lines;
    let tag = SENTINEL.to_string();
    let subs = substitute(&mut lines, &mut |t| if t == tag { Some(num.clone()) } else { None });
    assert!(subs == 1, "HARNESS: {} places", subs);
    let text = assemble(s, &lines, false).text;
    cx.sample(|| text.clone());
    cx.checks(1);
    if garbled || !fits {
        cx.count("to be rejected");
        cx.nontrivial(&(k, &num));
        ensure!(parse(&text).is_err(), text, "{} as {} was accepted, although it is no number from {} to {}", num, what, lo, hi);
        return Ok(());
    }
    cx.count("in range");
    if v < 0 || v > 20 {
        cx.nontrivial(&(k, &num));
    }
    let want = at_place(k, v);
    match read_back(&text) {
        Err(e) => return fail(format!("{} as {}: {}", num, what, e), text),
        Ok(g) => ensure!(g == want.reachable(), text, "{} as {} is taken differently: {}", num, what, diff(&want.reachable(), &g)),
    }
    let text = b_circuit(&want).to_string();
    cx.checks(1);
    match read_back(&text) {
        Err(e) => return fail(format!("printed {} as {}: {}", v, what, e), text),
        Ok(g) => ensure!(g == want.reachable(), text, "printed {} as {} is taken differently: {}", v, what, diff(&want.reachable(), &g)),
    }
    Ok(())
}

/// An exact fraction: numerator and power of ten or two in the denominator
fn exact(d: &str) -> (BigInt, BigUint) {
    let (m, e) = match d.find('E') {
        Some(i) => (&d[..i], d[i + 1..].parse::<i64>().unwrap_or(0)),
        None => (d, 0),
    };
    let neg = m.starts_with('-');
    let m = m.trim_start_matches(['-', '+']);
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{}{}", i, f);
    let v = BigUint::parse_bytes(if digits.is_empty() { b"0" } else { digits.as_bytes() }, 10).unwrap();
    let e = e - f.len() as i64;
    let ten = |k: i64| BigUint::from(10u8).pow(k as u32);
    let (v, den) = if e >= 0 { (v * ten(e), BigUint::from(1u8)) } else { (v, ten(-e)) };
    (BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v), den)
}

fn of_f64(x: f64) -> (BigInt, BigUint) {
    let b = x.to_bits();
    let neg = b >> 63 != 0;
    let e = ((b >> 52) & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let m = BigUint::from(m);
    let (m, den) = if e >= 0 { (m << e, BigUint::from(1u8)) } else { (m, BigUint::from(1u8) << -e) };
    (BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, m), den)
}

/// |a - b| as a fraction
fn dist(a: &(BigInt, BigUint), b: &(BigInt, BigUint)) -> (BigUint, BigUint) {
    let x = &a.0 * BigInt::from(b.1.clone()) - &b.0 * BigInt::from(a.1.clone());
    (x.magnitude().clone(), &a.1 * &b.1)
}

fn le(a: &(BigUint, BigUint), b: &(BigUint, BigUint)) -> bool {
    &a.0 * &b.1 <= &b.0 * &a.1
}

fn ext(p: Pv) -> Circuit {
    let params = [(n("p"), p)].into_iter().collect();
    let m = Module { name: n("x"), info: None, ports: vec![], kind: Mk::Ext { defname: None, params } };
    Circuit { top: n("x"), info: None, mods: vec![m] }
}

fn only_double(v: &View) -> Option<f64> {
    match &v.mods.get("x")?.kind {
        Mk::Ext { params, .. } => match params.get("p")? {
            Pv::Dbl(d) => Some(*d),
            _ => None,
        },
        _ => None,
    }
}

fn doubles(cx: &mut Cx) -> Res {
    cx.count("floating point numbers");
    let s = &mut cx.src;
    let x = loop {
        let x = match s.below(4) {
            0 => f64::from_bits(s.u64()),
            1 => Gen::new(s, Opts::full(2)).double(),
            2 => {
                // an integer around the limit of exactness, a subnormal number, …
                let v = *s.pick(&[9007199254740992.0f64, 0.0, f64::MIN_POSITIVE, 1.0, 0.1, 1e15, 1e16, 1e21, 1e-5, 1e-7, 1e22, 1e23, 4294967296.0, 1.7976931348623157e308]);
                let k = s.below(7) as i64 - 3;
                f64::from_bits((v.to_bits() as i64 + k).max(0) as u64)
            }
            _ => (s.u64() >> s.below(64)) as f64 / *s.pick(&[1.0, 10.0, 100.0, 1000.0, 8.0, 1e10]),
        };
        if x.is_finite() {
            break if s.coin() { -x } else { x };
        }
        if s.rec.len() > 200 {
            break 1.5;
        }
    };
    // exactly after printing and parsing
    let c = ext(Pv::Dbl(x));
    let text = b_circuit(&c).to_string();
    cx.sample(|| text.clone());
    cx.nontrivial(&x.to_bits());
    cx.checks(1);
    match read_back(&text) {
        Err(e) => return fail(format!("printed {:?}: {}", x, e), text),
        Ok(v) => match only_double(&v) {
            Some(y) => ensure!(y.to_bits() == x.to_bits(), text, "{:?} becomes {:?}", x, y),
            None => return fail(format!("{:?} becomes something else than a floating point number", x), text),
        },
    }
    // the nearest number for any decimal one
    let s = &mut cx.src;
    let d = match s.below(4) {
        0 => {
            let k = s.range(1, 25);
            let mut t: String = (0..k).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            let at = s.range(0, k);
            t.insert(at, '.');
            t
        }
        1 => {
            let k = s.range(1, 20);
            let mut t: String = (0..k).map(|_| (b'0' + s.below(10) as u8) as char).collect();
            t.insert(s.range(0, k), '.');
            let e = s.range(0, 640) as i64 - 345;
            let e = if s.coin() { e } else { e % 20 };
            let sign = if e >= 0 && s.coin() { "+" } else { "" };
            format!("{}E{}{}", t, sign, e)
        }
        2 => {
            // halfway between two numbers, and next to it
            let y = f64::from_bits(x.abs().to_bits() & !(0x7ff << 52) | ((1023 - 40 + s.below(80) as u64) << 52));
            let z = f64::from_bits(y.to_bits() + 1);
            let (a, b) = (of_f64(y), of_f64(z));
            // (a + b) / 2 in decimal: the denominator is a power of two
            let num = &a.0 * BigInt::from(b.1.clone()) + &b.0 * BigInt::from(a.1.clone());
            let den = &a.1 * &b.1 * 2u8;
            let k = den.bits() - 1;
            let scaled = num.magnitude() * BigUint::from(5u8).pow(k as u32);
            let mut t = scaled.to_string();
            while t.len() as u64 <= k {
                t.insert(0, '0');
            }
            let at = t.len() - k as usize;
            t.insert(at, '.');
            if s.coin() {
                t.push('1')
            }
            t
        }
        _ => format!("{:?}", x.abs()).replace('e', "E"),
    };
    let d = if d.contains('.') { d } else { d.replacen('E', ".0E", 1) };
    let d = if d.contains('.') { d } else { d + ".0" };
    let sign = *cx.src.pick(&["", "-", "+"]);
    let d = format!("{}{}", sign, d);
    let text = format!("circuit x :\n  extmodule x :\n    parameter p = {}\n", d);
    let want = exact(&d);
    let max = of_f64(f64::MAX);
    let beyond = &BigInt::from(want.0.magnitude().clone()) * BigInt::from(max.1.clone()) > &max.0 * BigInt::from(want.1.clone());
    cx.checks(1);
    match read_back(&text) {
        Err(_) if beyond => (),
        Err(e) => return fail(format!("{}: {}", d, e), text),
        Ok(v) => match only_double(&v) {
            None => return fail(format!("{} becomes something else than a floating point number", d), text),
            Some(y) => {
                ensure!(y.is_finite(), text, "{} becomes {:?}", d, y);
                let near = dist(&want, &of_f64(y));
                let step = |up: bool| -> f64 {
                    let b = y.to_bits();
                    if y == 0.0 {
                        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
                    }
                    if (y > 0.0) == up { f64::from_bits(b + 1) } else { f64::from_bits(b - 1) }
                };
                for z in [step(true), step(false)] {
                    if z.is_finite() {
                        ensure!(le(&near, &dist(&want, &of_f64(z))), text, "{} becomes {:?}, but {:?} is nearer", d, y, z);
                    }
                }
                ensure!(y == 0.0 || (y < 0.0) == (want.0.sign() == Sign::Minus), text, "{} becomes {:?}", d, y);
            }
        },
    }
    Ok(())
}
