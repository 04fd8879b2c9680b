//! Printing, parsing, layout, streams

use std::collections::HashSet;

use firrtl_ast::circuit::{self, parse};
use firrtl_ast::Named;

use super::*;
use crate::conv::{b_circuit_copies, lift, lift_module};
use crate::engine::{fail, Cx, Prop, Res};
use crate::gen::{feats, Gen, Opts};
use crate::mutate;
use crate::reader::{read, Read};
use crate::render::{assemble, text_of, Render, Style, FREE};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "random circuits (module DAG, all statements, expressions over declared entities, names, strings and numbers of any kind) are built as trees, printed and parsed; non-trivial: at least two statements or two modules",
        quick: 800_000,
        thorough: 32_000_000,
        run: c01,
    },
    Prop {
        id: "C02",
        rule: "random circuits are written by the harness's own writer in varying notations and parsed; non-trivial: at least two statements or two modules",
        quick: 400_000,
        thorough: 16_000_000,
        run: c02,
    },
    Prop {
        id: "C03",
        rule: "random circuits are built as trees, printed and read by the harness's own reader; non-trivial: at least two statements or two modules",
        quick: 1_000_000,
        thorough: 32_000_000,
        run: c03,
    },
    Prop {
        id: "C04",
        rule: "random texts in varying layout and notation, mostly with one to three token or line mutations, are parsed, printed, parsed and printed again; non-trivial: the mutated text was accepted",
        quick: 750_000,
        thorough: 24_000_000,
        run: c04,
    },
    Prop {
        id: "C07",
        rule: "random circuits are written in three random layouts each and parsed; non-trivial: at least two statements or two modules",
        quick: 200_000,
        thorough: 8_000_000,
        run: c07,
    },
];

fn gen_opts(cx: &mut Cx) -> Opts {
    let mut o = Opts::full(cx.size);
    match cx.src.below(6) {
        0 => o.max_mods = 8,
        1 => {
            o.depth = 6;
            o.max_mods = 2
        }
        2 => {
            o.weird_names = false;
            o.untyped = 60
        }
        _ => (),
    }
    o
}

/// Whether trees contain equal copies of entities, memories and modules
fn copies(cx: &mut Cx) -> u64 {
    if cx.src.chance(1, 3) {
        cx.count("with equal copies of declared objects");
        1 + cx.src.below(1 << 40) as u64
    } else {
        0
    }
}

fn c01(cx: &mut Cx) -> Res {
    let o = gen_opts(cx);
    let c = Gen::new(&mut cx.src, o).circuit();
    circuit_nontrivial(cx, &c);
    let view = c.reachable();
    let copies = copies(cx);
    let ast = b_circuit_copies(&c, copies);
    let text = ast.to_string();
    cx.sample(|| text.clone());
    let back = match parse(&text) {
        Ok(b) => b,
        Err(e) => return fail(format!("printed circuit rejected: {}", e), text),
    };
    let got = match lift(&back) {
        Ok(v) => v,
        Err(e) => return fail(format!("parsed circuit is inconsistent: {}", e), text),
    };
    let norm = view.clone().normalized();
    cx.checks(1);
    if got != view && got != norm {
        return fail(format!("parsed circuit differs: {}", diff(&norm, &got)), text);
    }
    let f = feats(&c);
    if f.empty_when == 0 && c.mods.len() <= 2 && f.stmts < 40 {
        cx.checks(1);
        cx.count("compared by the library's own equality");
        ensure!(ast == back, text, "the library considers the parsed circuit different");
    }
    Ok(())
}

fn c02(cx: &mut Cx) -> Res {
    let mut o = gen_opts(cx);
    o.unreachable_mods = true;
    let c = Gen::new(&mut cx.src, o).circuit().normalized();
    circuit_nontrivial(cx, &c);
    let style = Style { structure: cx.src.coin(), spacing: false, notation: cx.src.chance(3, 4) };
    let (_, t) = text_of(&mut cx.src, &c, style);
    let text = t.text;
    cx.sample(|| text.clone());
    match read_back(&text) {
        Err(e) => return fail(e, text),
        Ok(v) => {
            let want = c.reachable();
            cx.checks(1);
            ensure!(v == want, text, "parsed circuit differs: {}", diff(&want, &v));
        }
    }
    // all modules in the order of definition
    let mut con = match circuit::consumer(&text) {
        Ok(c) => c,
        Err(e) => return fail(format!("rejected by consumer: {}", e), text),
    };
    for m in &c.mods {
        let x = match con.next() {
            Some(Ok(x)) => x,
            Some(Err(e)) => return fail(format!("module {:?}: {}", m.name, e), text),
            None => return fail(format!("module {:?} missing", m.name), text),
        };
        match lift_module(&x) {
            Err(e) => return fail(e, text),
            Ok((got, _)) => {
                cx.checks(1);
                ensure!(&got == m, text, "module {:?} differs: {}", m.name, diff(m, &got))
            }
        }
    }
    ensure!(con.next().is_none(), text, "more modules than defined");
    Ok(())
}

fn c03(cx: &mut Cx) -> Res {
    let mut o = gen_opts(cx);
    o.unreachable_mods = true;
    o.twins = false;
    let c = Gen::new(&mut cx.src, o).circuit();
    circuit_nontrivial(cx, &c);
    let want = c.reachable().normalized();
    let copies = copies(cx);
    let text = b_circuit_copies(&c, copies).to_string();
    cx.sample(|| text.clone());
    match read(&text) {
        Read::Open(m) if m == "module defined twice" => fail("a module is printed twice", text),
        Read::Open(m) => {
            cx.count("not judged by the reader");
            let _ = m;
            if std::env::var("FAV_DEBUG").is_ok() {
                eprintln!("OPEN {}", m);
            }
            Ok(())
        }
        Read::Reject(l, m) => fail(format!("printed text is no FIRRTL, line {}: {}", l, m), text),
        Read::Ok { c: got, soft } => {
            cx.checks(3);
            ensure!(!soft, text, "printed text is dubious FIRRTL");
            let mut seen = HashSet::new();
            for m in &got.mods {
                ensure!(seen.insert(m.name.clone()), text, "module {:?} printed twice", m.name);
                ensure!(want.mods.contains_key(&m.name), text, "module {:?} printed, although not part of the circuit", m.name);
            }
            for x in want.mods.keys() {
                ensure!(seen.contains(x), text, "module {:?} not printed", x);
            }
            let v = got.normalized().reachable();
            ensure!(v == want, text, "printed circuit differs: {}", diff(&want, &v));
            Ok(())
        }
    }
}

/// The text with the lines of external modules' parameters sorted
pub fn params_sorted(t: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let mut run: Vec<&str> = vec![];
    for l in t.lines() {
        if l.trim_start().starts_with("parameter ") {
            run.push(l)
        } else {
            run.sort();
            out.append(&mut run);
            out.push(l);
        }
    }
    run.sort();
    out.append(&mut run);
    out.join("\n")
}

fn c04(cx: &mut Cx) -> Res {
    let mut o = gen_opts(cx);
    o.unreachable_mods = true;
    o.narrow = true;
    let c = Gen::new(&mut cx.src, o).circuit();
    let style = Style { structure: cx.src.coin(), spacing: cx.src.chance(1, 4), notation: cx.src.coin() };
    let mut r = Render::new(&mut cx.src, style);
    r.circuit(&c);
    let mut lines = r.lines;
    let mut kinds = vec![];
    if !cx.src.chance(1, 8) {
        for _ in 0..cx.src.range(1, 3) {
            kinds.push(mutate::one(&mut cx.src, &mut lines));
        }
    }
    let text = assemble(&mut cx.src, &lines, style.spacing).text;
    let c1 = match parse(&text) {
        Ok(c) => c,
        Err(_) => {
            cx.count("rejected");
            return Ok(());
        }
    };
    for k in &kinds {
        cx.count(k)
    }
    cx.sample(|| format!("{:?}\n{}", kinds, text));
    let v1 = match lift(&c1) {
        Ok(v) => v,
        Err(e) if e.starts_with("two different modules") && crate::findings::repeated_modules(&text) => {
            cx.count("skipped: two modules of one name (known finding)");
            return Ok(());
        }
        Err(e) => return fail(format!("inconsistent circuit: {}", e), text),
    };
    if !kinds.is_empty() {
        cx.nontrivial(&text);
    }
    let t1 = c1.to_string();
    let c2 = match parse(&t1) {
        Ok(c) => c,
        Err(e) => return fail(format!("printed text rejected: {}", e), format!("{}\n--- printed as\n{}", text, t1)),
    };
    let both = || format!("{}\n--- printed as\n{}", text, t1);
    let v2 = match lift(&c2) {
        Ok(v) => v,
        Err(e) => return fail(format!("inconsistent circuit after printing: {}", e), both()),
    };
    cx.checks(2);
    ensure!(v2 == v1 || v2 == v1.clone().normalized(), both(), "circuit changed by printing: {}", diff(&v1, &v2));
    let t2 = c2.to_string();
    ensure!(params_sorted(&t1) == params_sorted(&t2), both(), "printing is not stable, second text:\n{}", t2);
    Ok(())
}

fn c07(cx: &mut Cx) -> Res {
    let mut o = gen_opts(cx);
    o.unreachable_mods = true;
    let c = Gen::new(&mut cx.src, o).circuit().normalized();
    circuit_nontrivial(cx, &c);
    let want = c.reachable();
    for i in 0..3 {
        let (_, t) = text_of(&mut cx.src, &c, Style { notation: false, structure: i > 0, ..FREE });
        if i == 0 {
            cx.sample(|| t.text.clone());
        }
        match read_back(&t.text) {
            Err(e) => return fail(e, t.text),
            Ok(v) => {
                cx.checks(1);
                ensure!(v == want, t.text, "parsed circuit differs: {}", diff(&want, &v));
            }
        }
        // modules by the consumer as well
        let con = match circuit::consumer(&t.text) {
            Ok(c) => c,
            Err(e) => return fail(format!("rejected: {}", e), t.text),
        };
        let names: Vec<N> = con.filter_map(|m| m.ok()).map(|m| m.name().clone()).collect();
        let want: Vec<N> = c.mods.iter().map(|m| m.name.clone()).collect();
        cx.checks(1);
        ensure!(names == want, t.text, "modules differ: {:?} instead of {:?}", names, want);
    }
    Ok(())
}
