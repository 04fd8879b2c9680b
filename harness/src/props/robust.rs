//! Malformed texts, streams, module iteration, error positions

use std::collections::HashSet;
use std::io;
use std::sync::Arc;

use firrtl_ast::circuit::{self, parse, Circuit as ACircuit, ModuleConsumer};
use firrtl_ast::error::ParseError;
use firrtl_ast::module::{Module as AModule, Modules};
use firrtl_ast::stmt::{Entity, Kind as AK};
use firrtl_ast::info::WithInfo;
use firrtl_ast::Named;

use super::*;
use crate::conv::{b_module, lift, lift_module, Mods};
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{Gen, Opts};
use crate::mutate::{self, tok};
use crate::reader::{read, Read};
use crate::render::{assemble, line_text, text_of, Line, Lk, Render, Style, Text, Tk, FREE, PLAIN};
use crate::tape::Src;
use crate::walkall::Walk;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C05",
        rule: "arbitrary characters, token soup, valid texts with token and character mutations, and deeply nested texts are parsed as a whole, per module and from a reader; whatever is accepted is printed, typed and traversed completely; non-trivial: the text is longer than 40 bytes",
        quick: 300_000,
        thorough: 24_000_000,
        run: c05,
    },
    Prop {
        id: "C06",
        rule: "faults injected into random texts, judged by the harness's own reader; non-trivial: the reader rejects the text",
        quick: 700_000,
        thorough: 24_000_000,
        run: c06,
    },
    Prop {
        id: "C15",
        rule: "random stepping, lookup, adding, asking and finishing over valid and faulty texts and iterators of modules; non-trivial: at least two modules",
        quick: 480_000,
        thorough: 19_200_000,
        run: c15,
    },
    Prop {
        id: "C16",
        rule: "random texts, partly faulty, read through readers which split, interrupt, fail or contain invalid bytes; non-trivial: more than one chunk or an injected fault",
        quick: 600_000,
        thorough: 24_000_000,
        run: c16,
    },
    Prop {
        id: "C17",
        rule: "valid texts with one malformed line; non-trivial: the malformed line is not the first one",
        quick: 600_000,
        thorough: 24_000_000,
        run: c17,
    },
];

fn deep(s: &mut Src) -> String {
    let k = *s.pick(&[20usize, 50, 100, 150, 60, 300, 800]);
    let mut t = String::from("circuit x :\n  module x :\n    input a : UInt<8>\n    input v : UInt<4>[4]\n");
    match s.below(11) {
        9 | 10 => {
            // any operation or subscript, in any operand
            let pick = |s: &mut Src| {
                *s.pick(&[
                    "pad(#, 3)", "asUInt(#)", "asSInt(#)", "asFixed(#, 1)", "asClock(#)", "asAsyncReset(#)", "shl(#, 1)", "shr(#, 1)",
                    "dshl(#, a)", "dshl(a, #)", "dshr(#, a)", "dshr(a, #)", "cvt(#)", "neg(#)", "not(#)", "andr(#)", "orr(#)", "xorr(#)",
                    "bits(#, 3, 0)", "head(#, 1)", "tail(#, 1)", "incp(#, 1)", "decp(#, 1)", "setp(#, 1)", "mux(#, a, a)", "mux(a, #, a)",
                    "mux(a, a, #)", "validif(#, a)", "validif(a, #)", "v[#]", "#.a", "#[1]", "#[a]", "add(#, a)", "add(a, #)", "sub(#, a)",
                    "sub(a, #)", "mul(#, a)", "mul(a, #)", "div(#, a)", "div(a, #)", "rem(#, a)", "rem(a, #)", "lt(#, a)", "lt(a, #)",
                    "leq(#, a)", "leq(a, #)", "gt(#, a)", "gt(a, #)", "geq(#, a)", "geq(a, #)", "eq(#, a)", "eq(a, #)", "neq(#, a)",
                    "neq(a, #)", "and(#, a)", "and(a, #)", "or(#, a)", "or(a, #)", "xor(#, a)", "xor(a, #)", "cat(#, a)", "cat(a, #)",
                ])
            };
            let ops: Vec<&str> = (0..if s.coin() { 1 } else { s.range(2, 6) }).map(|_| pick(s)).collect();
            let mut pre = String::new();
            let mut post = vec![];
            for i in 0..k {
                let (a, b) = ops[i % ops.len()].split_once('#').unwrap();
                pre.push_str(a);
                post.push(b);
            }
            post.reverse();
            let leaf = if s.chance(1, 3) { *s.pick(&["x", "", "?", "a a", "UInt<1>(", "a, a", "\"", "bits"]) } else { "a" };
            let e = format!("{}{}{}", pre, leaf, post.concat());
            t.push_str(&match s.below(6) {
                0 => format!("    a <= {}\n", e),
                1 => format!("    {} is invalid\n", e),
                2 => format!("    when {} :\n      skip\n", e),
                3 => format!("    stop({}, a, 1)\n", e),
                _ => format!("    node y = {}\n", e),
            });
        }
        0 => {
            let op = *s.pick(&["not", "andr", "cvt", "asUInt", "neg"]);
            t.push_str(&format!("    node y = {}a{}\n", format!("{}(", op).repeat(k), ")".repeat(k)));
        }
        1 => t.push_str(&format!("    node y = {}a{}\n", "mux(a, a, ".repeat(k), ")".repeat(k))),
        2 => t.push_str(&format!("    node y = {}a{}\n", "v[".repeat(k), "]".repeat(k))),
        3 => t.push_str(&format!("    wire y : {}UInt<1>{}\n", "{a : ".repeat(k), "}".repeat(k))),
        4 => t.push_str(&format!("    wire y : UInt<1>{}\n", "[2]".repeat(k))),
        5 => {
            for i in 0..k {
                t.push_str(&" ".repeat(4 + i));
                t.push_str("when a :\n");
            }
            t.push_str(&" ".repeat(4 + k));
            t.push_str("skip\n");
        }
        6 => {
            t.push_str("    when a :\n      skip\n");
            for _ in 0..k {
                t.push_str("    else when a :\n      skip\n");
            }
        }
        7 => t.push_str(&format!("    node y = a{}\n", if s.coin() { ".a" } else { "[0]" }.repeat(k))),
        _ => t.push_str(&format!("    node y = {}a{}\n", "cat(a, ".repeat(k), ")".repeat(k))),
    }
    if s.chance(1, 3) {
        // with the closing part missing
        let mut n = t.len() - if s.coin() { s.range(1, k.min(30)) } else { s.range(1, t.len()) };
        while !t.is_char_boundary(n) {
            n -= 1
        }
        t.truncate(n);
    }
    t
}

pub fn some_text(cx: &mut Cx, max_mut: usize) -> (Circuit, Vec<Line>, Text) {
    let mut o = Opts::full(cx.size);
    o.unreachable_mods = true;
    o.depth = 4;
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: cx.src.chance(1, 4), notation: cx.src.coin() };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let mut lines = r.lines;
    for _ in 0..cx.src.range(0, max_mut) {
        mutate::one(&mut cx.src, &mut lines);
    }
    let t = assemble(&mut cx.src, &lines, style.spacing);
    (c, lines, t)
}

/// Blow up one token or gap to a length around the usual limits
/// Repeat one character of a text many times; returns whether a very long gap was made
fn stretch(s: &mut Src, text: &mut String) -> bool {
    let tokens: Vec<(usize, usize)> = {
        let b = text.as_bytes();
        let class = |c: u8| if c.is_ascii_alphanumeric() || c == b'_' || c >= 128 { 0 } else if c == b' ' { 1 } else { 2 + c as usize };
        let mut v: Vec<(usize, usize)> = vec![];
        for i in 0..b.len() {
            match v.last_mut() {
                Some((a, e)) if *e == i && class(b[*a]) == class(b[i]) => *e = i + 1,
                _ => v.push((i, i + 1)),
            }
        }
        v
    };
    if tokens.is_empty() {
        return false;
    }
    let (a, e) = *s.pick(&tokens);
    if s.chance(1, 120) {
        // a gap no stack has room for, if every character takes a frame
        let k = s.range(400_000, 2_000_000);
        let lines: Vec<usize> = text.char_indices().filter(|(_, c)| *c == '\n').map(|(i, _)| i).collect();
        let (at, what) = match s.below(6) {
            0 if !lines.is_empty() => (*s.pick(&lines) + 1, " "),
            1 if !lines.is_empty() => (*s.pick(&lines), *s.pick(&[" ", "\t", "\n", "\r\n", "\n;", "\n "])),
            2 => (e, *s.pick(&["a", "é"])),
            3 => (text.find(['"', '[']).map(|i| i + 1).unwrap_or(e), *s.pick(&["a", "\\n", "%", "]"])),
            _ => (e, *s.pick(&[" ", "\t"])),
        };
        text.insert_str(at, &what.repeat(k));
        return true;
    }
    let mut c = a + s.below(e - a);
    while !text.is_char_boundary(c) {
        c -= 1;
    }
    let ch = text[c..].chars().next().unwrap();
    let ch = if s.coin() { ch } else { *s.pick(&[' ', '0', '9', 'a', 'ä', ',', '(', '\t', '\n', ';', '"', '_', '%']) };
    if s.chance(19, 20) {
        // a short one of several kinds of characters
        let mut r = String::new();
        for _ in 0..s.range(1, 3) {
            let d = if s.chance(1, 3) { ch } else { *s.pick(&['0', '0', '9', 'a', ' ', 'ä', '٣', '²', '名', '\u{10ffff}', '\t', ',', '-', '%', '\\', '"']) };
            r.extend(std::iter::repeat(d).take(s.range(1, 40)));
        }
        text.insert_str(c, &r);
        return false;
    }
    let k = match s.below(4) {
        0 => s.range(65500, 65560),
        1 if " \t\nax;".contains(ch) && s.chance(1, 10) => s.range(200_000, 3_000_000),
        1 => s.range(1000, 200_000),
        2 => *s.pick(&[255, 256, 1023, 1024, 4095, 4096, 32767, 32768, 131_071]),
        _ => s.range(65536, 66000),
    };
    // nesting takes stack space
    let k = if "([{".contains(ch) { k.min(500) } else { k };
    text.insert_str(c, &ch.to_string().repeat(k));
    false
}

/// A token of the same class as the given one, but an unusual one
fn odd_token(s: &mut Src, t: &str) -> String {
    let run = |s: &mut Src, r: &mut String, from: &[char], max: usize| {
        let c = *s.pick(from);
        let k = if s.chance(1, 8) { s.range(1, 400) } else { s.range(1, max) };
        r.extend(std::iter::repeat(c).take(k));
    };
    let first = t.chars().next().unwrap_or(' ');
    let mut r = String::new();
    if first.is_numeric() || first == '-' || first == '+' {
        r.push_str(*s.pick(&["", "", "", "-", "+", "--", "+-", "−"]));
        let mut kinds = s.range(1, 4);
        if s.coin() {
            run(s, &mut r, &['0'], 30);
            kinds -= 1;
        }
        for _ in 0..kinds {
            run(s, &mut r, &['0', '1', '9', '7', '٣', '²', '½', '௧', 'Ⅷ', '𝟘', '.', 'E', '_', 'x'], 24);
        }
    } else if first == '"' || first == '\'' {
        r.push(first);
        for _ in 0..s.range(0, 4) {
            run(s, &mut r, &['b', 'o', 'h', 'd', 'x', '-', '+', '0', '1', 'f', 'F', '8', '٣', '²', '_', '\\', '%', '"', '\'', ' ', 'é', '\u{10ffff}', 'n', '\n'], 3);
            if s.coin() {
                run(s, &mut r, &['0', '1', 'f', '%', '\\', '٣', 'é'], 70);
            }
        }
        if !s.chance(1, 8) {
            r.push(first);
        }
    } else {
        for _ in 0..s.range(1, 3) {
            run(s, &mut r, &['a', 'Z', '_', '$', '0', '٣', '²', 'é', '名', 'ǅ', '𝔸', 'ß', 'İ', '\u{301}', '\u{200d}', 'ª', '-'], 24);
        }
        if s.coin() {
            r.insert_str(0, t)
        }
    }
    r
}

/// A valid text with one or two unusual tokens
fn odd_text(cx: &mut Cx) -> String {
    let mut lines = some_text(cx, 0).1;
    for _ in 0..cx.src.range(1, 2) {
        let i = some_line(&mut cx.src, &lines);
        let toks: Vec<usize> = (0..lines[i].toks.len())
            .filter(|j| lines[i].toks[*j].s.starts_with(|c: char| c.is_alphanumeric() || "+-\"'_".contains(c)))
            .collect();
        if toks.is_empty() {
            continue;
        }
        // numerals and strings are rare
        let rare: Vec<usize> = toks.iter().copied().filter(|j| !lines[i].toks[*j].s.starts_with(|c: char| c.is_alphabetic())).collect();
        let j = if !rare.is_empty() && cx.src.chance(2, 3) { *cx.src.pick(&rare) } else { *cx.src.pick(&toks) };
        lines[i].toks[j].s = odd_token(&mut cx.src, &lines[i].toks[j].s.clone()).into();
    }
    assemble(&mut cx.src, &lines, false).text
}

/// Parse and print a text with the stack of an ordinary main thread
///
/// An overflow ends this process, which counts as a crash of the case.
fn small_stack(text: &str) {
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || {
            let r = crate::engine::guarded(|| match parse(text) {
                Ok(c) => c.to_string().len(),
                Err(e) => e.to_string().len(),
            });
            // a panic is reported by the run on the ordinary stack
            drop(r)
        });
        if let Ok(t) = t {
            let _ = t.join();
        }
    })
}

fn c05(cx: &mut Cx) -> Res {
    let form = cx.src.weighted(&[2, 8, 10, 8, 2, 5]);
    let mut text = match form {
        0 => {
            cx.count("noise");
            mutate::noise(&mut cx.src)
        }
        1 => {
            cx.count("token soup");
            let t = mutate::soup(&mut cx.src);
            if cx.src.chance(1, 4) {
                mutate::harsh(&mut cx.src, &t)
            } else {
                t
            }
        }
        2 => {
            cx.count("token mutations");
            some_text(cx, 6).2.text
        }
        3 => {
            cx.count("character mutations");
            let t = some_text(cx, 1).2.text;
            mutate::harsh(&mut cx.src, &t)
        }
        4 => {
            cx.count("deep nesting");
            deep(&mut cx.src)
        }
        _ => {
            cx.count("odd tokens");
            odd_text(cx)
        }
    };
    if cx.src.chance(1, 8) {
        cx.count("stretched");
        if stretch(&mut cx.src, &mut text) && form != 4 {
            cx.count("long gap, small stack");
            small_stack(&text);
        }
    }
    if text.len() > 40 {
        cx.nontrivial(&text);
    }
    cx.sample(|| text.chars().take(4000).collect());
    let trace = std::env::var("FAV_TEXT").is_ok();
    if trace {
        eprintln!("{}", text);
    }
    let mut w = Walk::default();
    let r = crate::engine::guarded(|| -> Result<bool, String> {
        let whole = parse(&text);
        // through a reader
        let read = ACircuit::from_read(text.as_bytes());
        if whole.is_ok() != read.is_ok() {
            return Err("from_read and parse disagree".into());
        }
        if let Ok(c) = &whole {
            let _ = (c.to_string(), c.info().map(|i| i.len()));
            w.module(c.top_module());
        }
        if let Err(e) = &whole {
            let _ = e.to_string();
        }
        // module by module
        if let Ok(mut con) = circuit::consumer(&text) {
            let mut n = 0u64;
            while let Some(m) = con.next() {
                n += 1;
                match m {
                    Ok(m) => {
                        let _ = con.circuit().map(|c| c.top_module().name().len());
                        w.module(&m)
                    }
                    Err(_) => {
                        if con.next().is_some() {
                            return Err("the iteration continues after an error".into());
                        }
                    }
                }
                if n > text.len() as u64 + 10 {
                    return Err("the iteration yields more modules than the text has characters".into());
                }
            }
        }
        // module iterator alone
        let mut mods = Modules::new(&text);
        let mut n = 0;
        while let Some(m) = mods.next() {
            n += 1;
            if m.is_err() && mods.next().is_some() {
                return Err("the module iteration continues after an error".into());
            }
            if n > text.len() + 10 {
                return Err("endless module iteration".into());
            }
        }
        Ok(whole.is_ok())
    });
    cx.add("expressions typed", w.typed);
    cx.add("expressions too large for typing", w.skipped);
    cx.checks(1 + w.exprs);
    match r {
        Ok(Ok(true)) => cx.count("accepted"),
        Ok(Ok(false)) => cx.count("rejected"),
        Ok(Err(m)) | Err(m) => return fail(m, text),
    }
    Ok(())
}

/// A fault after which the text is most probably invalid
fn fault(s: &mut Src, lines: &mut Vec<Line>) -> &'static str {
    match s.below(9) {
        0 => {
            // a character no token begins with
            let i = s.below(lines.len());
            let j = s.below(lines[i].toks.len() + 1);
            let c = *s.pick(&["?", "#", "!", "~", "^", "&", "|", "*", "/", "`"]);
            lines[i].toks.insert(j, tok(Tk::P, c));
            "illegal character"
        }
        1 => {
            let i = s.below(lines.len() + 1);
            let mut l = lines[i.min(lines.len() - 1)].clone();
            let t = *s.pick(&["?", "garbage", "garbage garbage", "end", "}", "skip skip", "wire", "x <=", "else :", "; ok\n  #", "circuit X :", "module", "node y", "@[x]"]);
            l.toks = vec![tok(Tk::P, t)];
            if s.coin() {
                l.indent = s.below(9);
            }
            lines.insert(i, l);
            "garbage line"
        }
        2 => {
            let i = s.below(lines.len());
            let t = *s.pick(&["x", "0", ")", "@[a]", ":", "skip", ",", "UInt", "\"", "]", "}", "."]);
            lines[i].toks.push(tok(Tk::P, t));
            "trailing token"
        }
        3 => {
            let i = s.below(lines.len());
            let j = s.below(lines[i].toks.len());
            lines[i].toks.remove(j);
            "token missing"
        }
        4 => {
            let i = s.below(lines.len());
            let k = s.below(lines[i].toks.len());
            lines[i].toks.truncate(k);
            if s.coin() {
                lines.truncate(i + 1);
            }
            "cut off"
        }
        5 => {
            let v: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].kind == Lk::MemEntry).collect();
            if v.is_empty() {
                return "none";
            }
            let i = *s.pick(&v);
            lines.remove(i);
            "memory attribute missing"
        }
        6 => {
            let i = s.below(lines.len());
            let old = lines[i].indent;
            let new = match s.below(4) {
                0 => 0,
                1 => old.saturating_sub(s.range(1, 3)),
                2 => old + s.range(1, 3),
                _ => s.below(12),
            };
            lines[i].indent = new;
            "misindented"
        }
        7 => {
            // arguments of a printf
            let v: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].toks.iter().any(|t| t.s == "printf")).collect();
            if v.is_empty() {
                return "none";
            }
            let i = *s.pick(&v);
            if let Some(t) = lines[i].toks.iter_mut().find(|t| t.k == Tk::Str && t.s.starts_with('"') && t.s.len() >= 2) {
                let spec = *s.pick(&["%d", "%x", "%b", "%c", "%", "%e", "% d", "\\"]);
                t.s.insert_str(1, spec);
            }
            "printf arguments"
        }
        _ => {
            if let Some(t) = lines[0].toks.get_mut(1) {
                t.s.push('Q');
            }
            "top module missing"
        }
    }
}

fn c06(cx: &mut Cx) -> Res {
    match cx.src.below(20) {
        0..=3 => return token_sweep(cx),
        4 | 5 => return layout_sweep(cx),
        6 | 7 => return char_sweep(cx),
        8 | 9 => {
            let text = odd_text(cx);
            cx.sample(|| format!("odd tokens\n{}", text));
            return judge(cx, text, "odd tokens");
        }
        _ => (),
    }
    let mut o = Opts::full(cx.size);
    o.unreachable_mods = true;
    o.depth = 5;
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: cx.src.chance(1, 5), notation: cx.src.coin() };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let mut lines = r.lines;
    let mut kind = "none";
    let mut cut = false;
    match cx.src.weighted(&[6, 3, 2]) {
        0 => kind = fault(&mut cx.src, &mut lines),
        1 => {
            for _ in 0..cx.src.range(1, 2) {
                kind = mutate::one(&mut cx.src, &mut lines)
            }
        }
        _ => cut = true,
    }
    let mut text = assemble(&mut cx.src, &lines, style.spacing).text;
    if cut {
        kind = "character fault";
        if cx.src.coin() {
            let mut k = cx.src.below(text.len() + 1);
            while !text.is_char_boundary(k) {
                k -= 1
            }
            text.truncate(k);
        } else {
            text = mutate::harsh(&mut cx.src, &text);
        }
    }
    cx.sample(|| format!("{}\n{}", kind, text));
    judge(cx, text, kind)
}

/// Every single token of some line of a small circuit removed, doubled or
/// replaced, and the line cut off at every token
fn token_sweep(cx: &mut Cx) -> Res {
    let mut o = Opts::full(cx.size.min(5));
    o.max_mods = 2;
    o.depth = 2;
    let c = Gen::new(&mut cx.src, o).circuit();
    let mut r = Render::new(&mut cx.src, PLAIN);
    r.circuit(&c);
    let base = r.lines;
    let i = some_line(&mut cx.src, &base);
    let op = cx.src.below(6);
    let junk = *cx.src.pick(&["(", ")", "[", "]", "{", "}", "<", ">", ",", ".", ":", "=", "=>", "<=", "<-", "flip", "0", "x", "?", "@[]", "\"\"", "UInt", "with", "when"]);
    for j in 0..base[i].toks.len() {
        let mut lines = base.clone();
        let l = &mut lines[i].toks;
        match op {
            0 | 1 => {
                l.remove(j);
            }
            2 => {
                let x = l[j].clone();
                l.insert(j, x);
            }
            3 => l[j] = tok(Tk::P, junk),
            4 => l.insert(j, tok(Tk::P, junk)),
            _ => l.truncate(j),
        }
        let text = assemble(&mut cx.src, &lines, false).text;
        if j == 0 {
            cx.sample(|| format!("token sweep {}\n{}", op, text));
        }
        judge(cx, text, "token sweep")?;
    }
    Ok(())
}

/// Every single character of some line of a small circuit removed, doubled,
/// exchanged, replaced or preceded by another one
fn char_sweep(cx: &mut Cx) -> Res {
    let mut o = Opts::full(cx.size.min(6));
    o.max_mods = 2;
    o.depth = 2;
    o.weird_names = cx.src.chance(1, 8);
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: false, notation: cx.src.coin() };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let base = r.lines;
    let i = some_line(&mut cx.src, &base);
    let plain: Vec<String> = base.iter().map(|l| format!("{}{}", " ".repeat(l.indent), line_text(&mut cx.src, l, false))).collect();
    let line: Vec<char> = plain[i].chars().collect();
    let op = cx.src.below(8);
    let junk = *cx.src.pick(&[
        ' ', ' ', ' ', ' ', '\t', '_', '$', '-', '+', '0', '1', '9', 'a', 'x', 'X', 'E', '.', ',', ';', ':', '=', '<', '>', '(', ')', '[', ']', '{', '}', '@', '"', '\'', '\\', '%', '#', '/', '|', '&', '*',
        '!', '?', '~', '^', '`', '\r', '\u{b}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{feff}', 'é', '²', '٣', '−', '＜', '\0',
    ]);
    // long ones in part
    let from = if line.len() > 120 { cx.src.below(line.len() - 119) } else { 0 };
    for j in from..line.len().min(from + 120) {
        let mut l = line.clone();
        match op {
            0 => {
                l.remove(j);
            }
            1 => l.insert(j, l[j]),
            2 => {
                if j + 1 == l.len() || l[j] == l[j + 1] {
                    continue;
                }
                l.swap(j, j + 1)
            }
            3 => {
                let c = l[j];
                l[j] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                if l[j] == c {
                    continue;
                }
            }
            4 => l[j] = junk,
            _ => l.insert(j, junk),
        }
        let mut text = String::new();
        for (k, p) in plain.iter().enumerate() {
            if k == i {
                text.extend(l.iter())
            } else {
                text.push_str(p)
            }
            text.push('\n');
        }
        if j == from {
            cx.sample(|| format!("character sweep {} {:?}\n{}", op, junk, text));
        }
        judge(cx, text, "character sweep")?;
    }
    Ok(())
}

/// Some line, lines of rare kinds being as likely as those of frequent ones
fn some_line(s: &mut Src, lines: &[Line]) -> usize {
    let key = |l: &Line| -> Vec<String> {
        let mut v: Vec<String> = l
            .toks
            .iter()
            .map(|t| t.s.clone())
            .filter(|t| LINE_WORDS.contains(&t.as_str()))
            .collect();
        v.sort();
        v.dedup();
        v
    };
    let mut groups: std::collections::BTreeMap<Vec<String>, Vec<usize>> = Default::default();
    for (i, l) in lines.iter().enumerate() {
        groups.entry(key(l)).or_default().push(i);
    }
    let groups: Vec<_> = groups.into_values().collect();
    let g = s.pick(&groups).clone();
    *s.pick(&g)
}

const LINE_WORDS: [&str; 42] = [
    "circuit", "module", "extmodule", "parameter", "defname", "input", "output", "wire", "reg", "node", "mem", "inst", "of", "is",
    "when", "else", "skip", "stop", "printf", "attach", "cmem", "smem", "mport", "read", "write", "rdwr", "infer", "with", "<=", "<-",
    "flip", "old", "new", "undefined", "depth", "reader", "writer", "readwriter", "data-type", "read-latency", "write-latency",
    "read-under-write",
];

/// Each line break of a small circuit removed or replaced, lines broken and
/// single lines indented otherwise
fn layout_sweep(cx: &mut Cx) -> Res {
    let mut o = Opts::full(cx.size.min(4));
    o.max_mods = 2;
    o.depth = 3;
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: false, notation: false };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let base = r.lines;
    let op = cx.src.below(8);
    let odd = *cx.src.pick(&["", " ", "\t", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{a0}", ",", ":", ";", "\\\n", "|"]);
    let d = cx.src.range(1, 5);
    for i in 0..base.len() {
        let plain: Vec<String> = base.iter().map(|l| format!("{}{}", " ".repeat(l.indent), line_text(&mut cx.src, l, false))).collect();
        let mut text = String::new();
        for (j, l) in plain.iter().enumerate() {
            let mut l = l.clone();
            if j == i {
                match op {
                    4 => l.insert_str(0, &" ".repeat(d)),
                    5 => l = l[d.min(base[i].indent)..].into(),
                    6 => l.insert_str(0, odd),
                    7 => {
                        let k = cx.src.range(1, base[i].toks.len());
                        let mut a = base[i].clone();
                        let mut b = base[i].clone();
                        b.toks = a.toks.split_off(k);
                        let ind = *cx.src.pick(&[0, a.indent, a.indent + 2, base[(i + 1).min(base.len() - 1)].indent]);
                        if !b.toks.is_empty() {
                            let (a, b) = (line_text(&mut cx.src, &a, false), line_text(&mut cx.src, &b, false));
                            l = format!("{}{}\n{}{}", " ".repeat(base[i].indent), a, " ".repeat(ind), b);
                        }
                    }
                    _ => (),
                }
            }
            text.push_str(&l);
            if j == i && j + 1 < plain.len() {
                match op {
                    // the next line's indentation follows immediately
                    0 => (),
                    1 => text.push_str(&" ".repeat(d)),
                    2 => text.push_str(odd),
                    3 => text.push_str(&" ".repeat(base[i].indent)),
                    _ => text.push('\n'),
                }
            } else {
                text.push('\n');
            }
        }
        if i == 0 {
            cx.sample(|| format!("layout sweep {}\n{}", op, text));
        }
        judge(cx, text, "layout sweep")?;
    }
    Ok(())
}

/// Compare the library's verdict on a text with that of the reader
fn judge(cx: &mut Cx, text: String, kind: &'static str) -> Res {
    match read(&text) {
        Read::Open(_) => {
            cx.count("not judged");
            Ok(())
        }
        Read::Reject(line, why) => {
            cx.nontrivial(&text);
            cx.count(kind);
            cx.checks(2);
            if let Ok(c) = parse(&text) {
                let got = c.to_string();
                return fail(
                    format!("accepted, although line {} is malformed: {} (fault: {})", line, why, kind),
                    format!("{}\n--- parsed as\n{}", text, got),
                );
            }
            if let Ok(con) = circuit::consumer(&text) {
                ensure!(con.into_circuit().is_err(), text, "accepted module by module, although line {} is malformed: {}", line, why);
            }
            Ok(())
        }
        Read::Ok { c, soft } => {
            cx.count("still valid");
            let want = c.reachable();
            cx.checks(1);
            match read_back(&text) {
                Err(e) if soft => {
                    let _ = e;
                    Ok(())
                }
                Err(e) if e.contains("two different modules") && crate::findings::repeated_modules(&text) => Ok(()),
                Err(e) => fail(format!("valid text: {} (mutation: {})", e, kind), text),
                Ok(v) => {
                    ensure!(v == want || soft, text, "parsed circuit differs (mutation: {}): {}", kind, diff(&want, &v));
                    Ok(())
                }
            }
        }
    }
}

// ------------------------------------------------------------------- C15

fn same_outcome(a: &Result<ACircuit, ParseError>, b: &Result<ACircuit, ParseError>) -> Result<(), String> {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (lift(a), lift(b));
            if x == y {
                Ok(())
            } else {
                Err(format!("circuits differ: {:?}", diff(&x, &y)))
            }
        }
        (Err(a), Err(b)) => {
            if a.to_string() == b.to_string() {
                Ok(())
            } else {
                Err(format!("errors differ: {} / {}", a, b))
            }
        }
        (Ok(_), Err(e)) => Err(format!("one accepts, the other reports {}", e)),
        (Err(e), Ok(_)) => Err(format!("one reports {}, the other accepts", e)),
    }
}

fn c15(cx: &mut Cx) -> Res {
    match cx.src.below(3) {
        0 => c15_text(cx),
        1 => c15_modules(cx),
        _ => c15_iter(cx),
    }
}

/// Proceed by at most `max` items in one of the ways iterators allow
///
/// Yields the number of items consumed and the last one of them if it is known.
fn jump<I: Iterator>(s: &mut Src, it: &mut I, max: usize) -> (usize, Option<Option<I::Item>>) {
    if max < 2 || s.coin() {
        return (1, Some(it.next()));
    }
    let k = s.range(1, max - 1);
    match s.below(7) {
        0 | 1 => (k + 1, Some(it.nth(k))),
        2 => (k + 1, Some(it.by_ref().skip(k).next())),
        3 => (k, Some(it.by_ref().take(k).last())),
        4 => (k, {
            it.by_ref().take(k).count();
            None
        }),
        5 => (k, Some(it.by_ref().take(k).fold(None, |_, x| Some(x)))),
        _ => (k + 1, Some(it.by_ref().step_by(k).nth(1))),
    }
}

fn multi(cx: &mut Cx) -> Circuit {
    let mut o = Opts::full(cx.size.min(6));
    o.unreachable_mods = true;
    o.max_mods = 7;
    o.depth = 2;
    let c = Gen::new(&mut cx.src, o).circuit().normalized();
    if c.mods.len() > 1 {
        cx.nontrivial(&c);
    }
    c
}

/// Stepping through a text
fn c15_text(cx: &mut Cx) -> Res {
    cx.count("text");
    let c = multi(cx);
    let mut r = Render::new(&mut cx.src, FREE);
    r.circuit(&c);
    let mut lines = r.lines;
    let faulty = cx.src.chance(1, 2);
    let mut top = c.top.clone();
    if faulty {
        if cx.src.chance(1, 4) {
            top = n("no_such_module");
            lines[0].toks[1].s = top.to_string();
        } else {
            let i = cx.src.range(1, lines.len() - 1);
            lines[i].toks.push(tok(Tk::P, "?"));
        }
    }
    let text = assemble(&mut cx.src, &lines, true).text;
    cx.sample(|| text.clone());
    let whole = parse(&text);
    // all modules
    let mut con = match circuit::consumer(&text) {
        Ok(c) => c,
        Err(e) => return fail(format!("consumer: {}", e), text),
    };
    let mut seen: Vec<Arc<AModule>> = vec![];
    let mut failed = false;
    loop {
        let avail = seen.iter().find(|m| **m.name() == *top);
        match (con.circuit(), avail) {
            (None, None) => (),
            (Some(x), Some(m)) => {
                ensure!(Arc::ptr_eq(x.top_module(), m), text, "circuit's top module is not the module yielded");
                ensure!(x.info() == c.info.as_deref(), text, "circuit's info is {:?}", x.info());
            }
            (a, b) => return fail(format!("circuit available: {}, top module yielded: {}", a.is_some(), b.is_some()), text),
        }
        cx.checks(1);
        if failed {
            break;
        }
        match con.next() {
            None => break,
            Some(Err(_)) => failed = true,
            Some(Ok(m)) => seen.push(m),
        }
    }
    for _ in 0..3 {
        ensure!(con.next().is_none(), text, "something yielded after the end");
    }
    for (i, m) in seen.iter().enumerate() {
        ensure!(i < c.mods.len(), text, "more modules than defined");
        if !faulty {
            match lift_module(m) {
                Ok((x, _)) => ensure!(x == c.mods[i], text, "module {} differs: {}", i, diff(&c.mods[i], &x)),
                Err(e) => return fail(e, text),
            }
        } else {
            ensure!(m.name() == &c.mods[i].name, text, "module {} is {:?}", i, m.name());
        }
    }
    if !faulty {
        ensure!(!failed && seen.len() == c.mods.len(), text, "not all modules yielded");
        ensure!(whole.is_ok(), text, "valid text rejected");
    } else {
        ensure!(whole.is_err(), text, "faulty text accepted");
    }
    // finishing from any point before the error
    let last = seen.len() + 1;
    for k in 0..=last {
        let mut con = circuit::consumer(&text).map_err(|e| crate::engine::Fail { msg: e.to_string(), detail: text.clone() })?;
        // where there is an error, it is the item after the modules seen
        let mut pos = 0;
        while pos < k {
            let left = (seen.len() + failed as usize).saturating_sub(pos);
            let (lo, hi) = con.size_hint();
            ensure!(lo <= left && hi.map(|h| h >= left).unwrap_or(true), text, "size hint {:?} with {} modules left", (lo, hi), left);
            let (n, last) = jump(&mut cx.src, &mut con, k - pos);
            pos += n;
            if let Some(last) = last {
                match (last, seen.get(pos - 1)) {
                    (Some(Ok(m)), Some(x)) if m.name() == x.name() => (),
                    (Some(Err(_)), None) if failed && pos == seen.len() + 1 => (),
                    (None, None) => (),
                    (m, x) => {
                        let m = m.map(|m| m.map(|m| m.name().to_string()).map_err(|e| e.to_string()));
                        return fail(format!("item {} is {:?} instead of module {:?}", pos - 1, m, x.map(|x| x.name().clone())), text);
                    }
                }
            }
            let avail = seen.iter().take(pos).any(|m| **m.name() == *top);
            ensure!(con.circuit().is_some() == avail, text, "after {} modules: circuit available: {}, top module passed: {}", pos, !avail, avail);
        }
        if failed && pos > seen.len() {
            break;
        }
        cx.checks(1);
        let fin = con.into_circuit();
        if let Err(e) = same_outcome(&fin, &whole) {
            return fail(format!("finishing after {} steps and parsing the whole text: {}", k, e), text);
        }
    }
    Ok(())
}

/// The module iterator, with modules added by the user
fn c15_modules(cx: &mut Cx) -> Res {
    cx.count("module iterator");
    let c = multi(cx);
    // a part of the modules is added by hand, the others come from the text
    let by_hand: Vec<bool> = c.mods.iter().map(|_| cx.src.chance(1, 3)).collect();
    let sub = Circuit {
        top: c.top.clone(),
        info: None,
        mods: c.mods.iter().zip(&by_hand).filter(|(_, h)| !**h).map(|(m, _)| m.clone()).collect(),
    };
    let mut r = Render::new(&mut cx.src, Style { notation: false, ..FREE });
    r.circuit(&sub);
    let lines: Vec<Line> = r.lines[1..].to_vec();
    let text = if lines.is_empty() {
        String::new()
    } else {
        let t = assemble(&mut cx.src, &lines, false);
        t.text
    };
    cx.sample(|| format!("{:?}\n{}", by_hand, text));
    let mut it = Modules::new(&text);
    let mut known: Mods = Mods::new();
    let hand_built = {
        // instances inside modules added by hand refer to whatever is known then
        |m: &Module, known: &Mods| b_module(m, known)
    };
    let forget = cx.src.chance(1, 4);
    for (m, hand) in c.mods.iter().zip(&by_hand) {
        if *hand {
            if m.insts().iter().any(|i| !known.contains_key(i)) {
                continue;
            }
            if forget && cx.src.coin() {
                continue;
            }
            let x = hand_built(m, &known);
            it.add_module(x.clone());
            known.insert(m.name.clone(), x);
        } else {
            let missing = m.insts().iter().any(|i| !known.contains_key(i));
            if cx.src.chance(1, 8) {
                // the definition in the text replaces a module added before
                let x = b_module(&Module { name: m.name.clone(), info: None, ports: vec![], kind: Mk::Reg(vec![]) }, &known);
                it.add_module(x.clone());
                known.insert(m.name.clone(), x);
                cx.count("module added before its definition");
            }
            match it.next() {
                None => return fail(format!("module {:?} not yielded", m.name), text),
                Some(Err(e)) => {
                    ensure!(missing, text, "module {:?}: {}", m.name, e);
                    for _ in 0..3 {
                        ensure!(it.next().is_none(), text, "iteration continues after an error");
                    }
                    let ok = match (it.module(&m.name), known.get(&m.name)) {
                        (None, None) => true,
                        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
                        _ => false,
                    };
                    ensure!(ok, text, "faulty module {:?} is known", m.name);
                    cx.count("instance of an unknown module");
                    return Ok(());
                }
                Some(Ok(x)) => {
                    ensure!(!missing, text, "module {:?} instantiates modules which are not known", m.name);
                    match lift_module(&x) {
                        Err(e) => return fail(e, text),
                        Ok((got, _)) => ensure!(&got == m, text, "module {:?} differs: {}", m.name, diff(m, &got)),
                    }
                    for s in x.statements() {
                        for i in s.instantiations() {
                            ensure!(
                                known.get(i.module().name()).map(|k| Arc::ptr_eq(k, i.module())).unwrap_or(false),
                                text,
                                "instance of {:?} does not refer to the known module",
                                i.module().name()
                            );
                        }
                    }
                    known.insert(m.name.clone(), x);
                }
            }
        }
        // lookups
        for o in &c.mods {
            cx.checks(1);
            match (it.module(&o.name), known.get(&o.name)) {
                (None, None) => (),
                (Some(a), Some(b)) if Arc::ptr_eq(a, b) => (),
                (a, b) => {
                    return fail(format!("lookup of {:?}: found {}, known {}", o.name, a.is_some(), b.is_some()), text);
                }
            }
        }
        ensure!(it.module("no such module").is_none(), text, "found a module which does not exist");
        // a later definition of the same name replaces the earlier one
        if cx.src.chance(1, 10) {
            let o = cx.src.pick(&c.mods).clone();
            if known.contains_key(&o.name) && o.insts().is_empty() {
                let x = b_module(&o, &known);
                it.add_module(x.clone());
                known.insert(o.name.clone(), x);
                cx.count("module replaced");
            }
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), text, "something yielded after the last module");
    }
    Ok(())
}

/// Any iterator of modules
fn c15_iter(cx: &mut Cx) -> Res {
    cx.count("custom iterator");
    let c = multi(cx);
    let mods = crate::conv::b_modules(&c);
    let k = cx.src.below(4);
    let err_at: HashSet<usize> = (0..k).map(|_| cx.src.below(c.mods.len() + 2)).collect();
    let err_at = if cx.src.coin() { HashSet::new() } else { err_at };
    let mut items: Vec<Result<Arc<AModule>, ParseError>> = vec![];
    for (i, m) in c.mods.iter().enumerate() {
        if err_at.contains(&i) {
            items.push(Err(ParseError::Other(format!("fault {}", i))));
        }
        items.push(Ok(mods[&m.name].clone()));
    }
    if err_at.contains(&c.mods.len()) {
        items.push(Err(ParseError::Other("last fault".into())));
    }
    let top = if cx.src.chance(1, 5) { n("no_such_module") } else { c.top.clone() };
    let desc = format!("{:?}, top {:?}", items.iter().map(|r| r.as_ref().map(|m| m.name().to_string()).map_err(|e| e.to_string())).collect::<Vec<_>>(), top);
    cx.sample(|| desc.clone());
    let len = items.len();
    let steps = cx.src.range(0, len + 1);
    let rest_err = items.iter().skip(steps).find_map(|r| r.as_ref().err().map(|e| e.to_string()));
    let expected: Vec<Result<N, String>> = items.iter().map(|r| r.as_ref().map(|m| m.name().clone()).map_err(|e| e.to_string())).collect();
    let ptr = expected.iter().any(|r| r.as_ref() == Ok(&top));
    let mut con = ModuleConsumer::new(top.to_string(), c.info.clone(), items.into_iter());
    let mut yielded = false;
    let mut at = 0;
    while at < steps {
        cx.checks(1);
        ensure!(con.circuit().is_some() == yielded, desc, "before step {}: circuit available: {}, top yielded: {}", at, !yielded, yielded);
        let left = len.saturating_sub(at);
        let (lo, hi) = con.size_hint();
        ensure!(lo <= left && hi.map(|h| h >= left).unwrap_or(true), desc, "size hint {:?} with {} items left", (lo, hi), left);
        let (n, last) = jump(&mut cx.src, &mut con, steps - at);
        yielded |= expected.iter().skip(at).take(n).any(|r| r.as_ref() == Ok(&top));
        at += n;
        match (last, expected.get(at - 1)) {
            (None, _) => (),
            (Some(None), None) => (),
            (Some(Some(Ok(m))), Some(Ok(x))) if m.name() == x => (),
            (Some(Some(Err(e))), Some(Err(x))) if &e.to_string() == x => (),
            (Some(r), x) => return fail(format!("step {}: expected {:?}, got {:?}", at, x, r.map(|r| r.map(|m| m.name().to_string()).map_err(|e| e.to_string()))), desc),
        }
    }
    ensure!(con.circuit().is_some() == yielded, desc, "after {} steps: circuit available: {}, top yielded: {}", steps, !yielded, yielded);
    if let Some(x) = con.circuit() {
        ensure!(Arc::ptr_eq(x.top_module(), &mods[&top]), desc, "wrong top module");
        ensure!(x.info() == c.info.as_deref(), desc, "wrong info {:?}", x.info());
    }
    cx.checks(1);
    match (con.into_circuit(), rest_err) {
        (Err(e), Some(x)) => ensure!(e.to_string() == x, desc, "finishing after {} steps reports {} instead of {}", steps, e, x),
        (Err(_), None) => ensure!(!ptr, desc, "finishing after {} steps fails", steps),
        (Ok(_), Some(x)) => return fail(format!("finishing after {} steps ignores {}", steps, x), desc),
        (Ok(x), None) => {
            ensure!(ptr && Arc::ptr_eq(x.top_module(), &mods[&top]), desc, "wrong top module");
            ensure!(x.info() == c.info.as_deref(), desc, "wrong info {:?}", x.info());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C16

enum Step {
    Data(usize),
    Interrupt,
}

struct Rd {
    data: Vec<u8>,
    at: usize,
    plan: Vec<Step>,
    i: usize,
    fail_at: Option<(usize, io::ErrorKind, bool)>,
}

impl io::Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let limit = self.fail_at.map(|f| f.0).unwrap_or(self.data.len());
        let st = if self.plan.is_empty() {
            Step::Data(usize::MAX)
        } else {
            let k = self.i % self.plan.len();
            self.i += 1;
            match &self.plan[k] {
                Step::Data(n) => Step::Data(*n),
                Step::Interrupt => Step::Interrupt,
            }
        };
        match st {
            Step::Interrupt => Err(io::ErrorKind::Interrupted.into()),
            Step::Data(k) => {
                let n = k.min(buf.len()).min(limit - self.at);
                if n == 0 && !buf.is_empty() && self.at >= limit {
                    if let Some((_, kind, custom)) = self.fail_at {
                        return Err(if custom { io::Error::new(kind, "injected failure") } else { kind.into() });
                    }
                }
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            }
        }
    }
}

fn c16(cx: &mut Cx) -> Res {
    let m = if cx.src.coin() { 1 } else { 0 };
    let mut text = some_text(cx, m).2.text;
    if cx.src.chance(1, 6) {
        // characters a reader might be tempted to treat specially
        let odd = *cx.src.pick(&[
            "\u{feff}", "\u{fffe}", "\0", "\u{1a}", "\r\n", "\n", "\r", " ", "\t", "\u{a0}", "\u{2028}", "\u{85}", "\u{c}", "\u{b}", "#!x\n",
            "; x\n", ";", "\u{4}", "\u{fffd}", "\u{301}", "\u{10ffff}", "\n\n", "circuit", "x",
        ]);
        match cx.src.below(3) {
            0 => text.insert_str(0, odd),
            1 => text.push_str(odd),
            _ => {
                let mut at = cx.src.below(text.len() + 1);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                text.insert_str(at, odd);
            }
        }
        cx.count("odd characters added");
    }
    if cx.src.chance(1, 1500) {
        // much data
        let k = *cx.src.pick(&[4095usize, 8191, 8192, 65535, 65536, 1 << 20, (1 << 20) + 1, 5 << 20]);
        let c = *cx.src.pick(&["x", "ä", "名", "\u{10ffff}", "\n", " "]);
        let long = format!(";{}\n", c.repeat(k));
        match cx.src.coin() {
            true => text.insert_str(0, &long),
            false => text.push_str(&long),
        }
        cx.count("much data");
    }
    let mut data = text.clone().into_bytes();
    let mut plan = vec![];
    if cx.src.chance(7, 8) {
        for _ in 0..cx.src.range(1, 8) {
            plan.push(match cx.src.below(6) {
                0 => Step::Interrupt,
                1 => Step::Data(1),
                2 => Step::Data(cx.src.range(1, 7)),
                3 => Step::Data(cx.src.range(1, 64)),
                4 => Step::Data(cx.src.range(1, 4096)),
                _ => Step::Data(cx.src.range(1, 3)),
            });
        }
        plan.push(Step::Data(cx.src.range(1, 40)));
    }
    let chunks = plan.len();
    let mut fail_at = None;
    let mut invalid = false;
    match cx.src.below(4) {
        0 => {
            let at = cx.src.below(data.len() + 1);
            let kind = *cx.src.pick(&[
                io::ErrorKind::Other,
                io::ErrorKind::UnexpectedEof,
                io::ErrorKind::BrokenPipe,
                io::ErrorKind::PermissionDenied,
                io::ErrorKind::ConnectionReset,
                io::ErrorKind::WouldBlock,
                io::ErrorKind::TimedOut,
                io::ErrorKind::NotFound,
            ]);
            fail_at = Some((at, kind, cx.src.coin()));
            cx.count("reader fails");
        }
        1 => {
            let at = cx.src.below(data.len() + 1);
            let bytes: &[u8] = *cx.src.pick(&[
                &b"\xff"[..],
                &b"\x80"[..],
                &b"\xc3"[..],
                &b"\xe2\x82"[..],
                &b"\xf0\x9f\x92"[..],
                &b"\xc0\x80"[..],
                &b"\xed\xa0\x80"[..],
                &b"\xf5\x80\x80\x80"[..],
            ]);
            data.splice(at..at, bytes.iter().copied());
            if cx.src.chance(1, 4) {
                let at = (at + bytes.len()).min(data.len());
                data.truncate(at);
            }
            invalid = std::str::from_utf8(&data).is_err();
            cx.count("invalid bytes");
        }
        _ => (),
    }
    if chunks > 1 || fail_at.is_some() || invalid {
        cx.nontrivial(&data);
    }
    cx.sample(|| format!("chunks {}, fails at {:?}, invalid {}\n{}", chunks, fail_at, invalid, String::from_utf8_lossy(&data)));
    let detail = || format!("{:?}\nfails at {:?}", String::from_utf8_lossy(&data), fail_at);
    let got = ACircuit::from_read(Rd { data: data.clone(), at: 0, plan, i: 0, fail_at });
    cx.checks(1);
    if let Some((at, kind, custom)) = fail_at {
        let _ = at;
        return match got {
            Err(ParseError::IO(e)) => {
                ensure!(e.kind() == kind, detail(), "I/O error of kind {:?} instead of {:?}", e.kind(), kind);
                if custom {
                    ensure!(e.to_string().contains("injected failure"), detail(), "cause lost: {}", e);
                }
                let e = ParseError::IO(e);
                ensure!(std::error::Error::source(&e).is_some(), detail(), "I/O error without source");
                Ok(())
            }
            Err(e) => fail(format!("reader failed, but reported is {}", e), detail()),
            Ok(_) => fail("reader failed, but a circuit is returned", detail()),
        };
    }
    if invalid {
        return match got {
            Err(ParseError::IO(e)) => {
                ensure!(e.kind() == io::ErrorKind::InvalidData, detail(), "I/O error of kind {:?}", e.kind());
                Ok(())
            }
            Err(e) => fail(format!("content is not UTF-8, but reported is {}", e), detail()),
            Ok(_) => fail("content is not UTF-8, but a circuit is returned", detail()),
        };
    }
    let text = String::from_utf8(data.clone()).unwrap();
    let want = parse(&text);
    cx.count(if want.is_ok() { "valid text" } else { "faulty text" });
    match same_outcome(&got, &want) {
        Ok(()) => Ok(()),
        Err(e) => fail(format!("reading differs from parsing: {}", e), detail()),
    }
}

// ------------------------------------------------------------------- C17

/// All line numbers named in an error message
pub fn lines_named(msg: &str) -> Vec<usize> {
    let mut v = vec![];
    for l in msg.lines() {
        let mut w = l.split(|c: char| c == ' ' || c == ':' || c == ',').filter(|s| !s.is_empty());
        // "0: at line 3, in Tag:"
        if let (Some(a), Some("at"), Some("line"), Some(n)) = (w.next(), w.next(), w.next(), w.next()) {
            if a.chars().all(|c| c.is_ascii_digit()) {
                if let Ok(n) = n.parse() {
                    v.push(n)
                }
            }
        }
    }
    v
}

fn c17(cx: &mut Cx) -> Res {
    let mut o = Opts::full(cx.size);
    o.unreachable_mods = true;
    o.depth = 4;
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: cx.src.chance(2, 3), notation: false };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let mut lines = r.lines;
    let i = cx.src.below(lines.len());
    let before = lines.clone();
    let what = match cx.src.below(6) {
        0 | 1 => {
            let j = cx.src.below(lines[i].toks.len() + 1);
            let c = *cx.src.pick(&["?", "#", "!", "~", "^", "&", "|", "*", "/", "`"]);
            lines[i].toks.insert(j, tok(Tk::P, c));
            "illegal character"
        }
        2 => {
            let j = cx.src.below(lines[i].toks.len());
            lines[i].toks.remove(j);
            "token missing"
        }
        3 => {
            let j = cx.src.range(1, lines[i].toks.len());
            lines[i].toks.truncate(j);
            "cut off"
        }
        4 => {
            let t = *cx.src.pick(&["x", "0", ")", "@[a]", ":", "skip", ","]);
            lines[i].toks.push(tok(Tk::P, t));
            "trailing token"
        }
        _ => {
            let v: Vec<usize> = (0..lines[i].toks.len()).filter(|j| lines[i].toks[*j].k == Tk::Id).collect();
            if v.is_empty() {
                return Ok(());
            }
            let j = *cx.src.pick(&v);
            lines[i].toks[j].s = "undeclared_name".into();
            "undeclared name"
        }
    };
    let t = assemble(&mut cx.src, &lines, style.spacing);
    let text = t.text;
    let bad = t.at[i];
    // the text must be faulty, because of this very line
    match read(&text) {
        Read::Reject(l, why) if l == bad && why != "no top module" => (),
        _ => {
            cx.count("discarded");
            return Ok(());
        }
    }
    let start = before[i].outer.map(|k| t.at[k]).unwrap_or(bad);
    cx.count(what);
    if bad > 1 {
        cx.nontrivial(&text);
    }
    if before[i].outer.is_some() {
        cx.count("inside a multi-line statement")
    }
    cx.sample(|| format!("{} in line {}\n{}", what, bad, text));
    let err = match parse(&text) {
        Ok(_) => return fail(format!("accepted, although line {} is malformed ({})", bad, what), text),
        Err(e) => e.to_string(),
    };
    let named = lines_named(&err);
    cx.checks(1);
    ensure!(!named.is_empty(), text, "error names no line ({} in line {}): {}", what, bad, err);
    // What follows the first position are the surroundings of the error, if anything
    for (k, l) in named.into_iter().enumerate() {
        ensure!(
            (if k == 0 { start } else { 1 }..=bad).contains(&l),
            text,
            "error names line {}, but malformed ({}) is line {} (of a statement beginning in line {}): {}",
            l, what, bad, start, err
        );
    }
    Ok(())
}

#[allow(unused)]
fn unused(_: &Entity, _: &AK) {}
#[allow(unused)]
fn unused2(s: &mut Src, c: &Circuit) {
    text_of(s, c, FREE);
}
