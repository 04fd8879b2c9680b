//! Known findings: each is probed in every run and reported while it still
//! fails. Nothing else is suppressed by them.

use std::path::Path;
use std::process::{exit, Command, Stdio};

use firrtl_ast::circuit::parse;

/// Lines to print for a property
pub fn report(file: &Path, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        // finding: property=<id> probe=<name> <what fails>
        let l = match l.strip_prefix("finding: ") {
            Some(l) => l,
            None => continue,
        };
        let mut w = l.splitn(3, ' ');
        let (p, probe, what) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        if p.strip_prefix("property=") != Some(id) {
            continue;
        }
        if let Some(name) = probe.strip_prefix("probe=") {
            if fails(name) {
                out.push(format!("KNOWN-FINDING: property={} {}", id, what));
            }
        }
    }
    out
}

/// Run the probe in a process with an ordinary stack
fn fails(name: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    Command::new("sh")
        .arg("-c")
        .arg("ulimit -c 0; ulimit -s 8192; ulimit -t 60; exec \"$0\" probe \"$1\"")
        .arg(exe)
        .arg(name)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map(|s| !s.success())
        .unwrap_or(false)
}

pub const TWO_MODULES: &str = "circuit Top :\n  module A :\n    input a : UInt<1>\n  module B :\n    inst a of A\n  module A :\n    input b : UInt<2>\n  module Top :\n    inst b of B\n    inst a of A\n";

/// Exit status 0 if the finding does not show any more
pub fn probe(name: &str) -> ! {
    let bad = match name {
        "nested-expressions" => {
            let k = 20_000;
            let t = format!("circuit x :\n  module x :\n    input a : UInt<8>\n    node y = {}a{}\n", "not(".repeat(k), ")".repeat(k));
            std::mem::forget(parse(&t));
            false
        }
        "nested-types" => {
            let t = format!("circuit x :\n  module x :\n    wire y : UInt<1>{}\n", "[1]".repeat(1_000_000));
            drop(parse(&t));
            false
        }
        "nested-else-when" => {
            let t = format!("circuit x :\n  module x :\n    input a : UInt<1>\n    when a :\n      skip\n{}", "    else when a :\n      skip\n".repeat(20_000));
            std::mem::forget(parse(&t));
            false
        }
        "chained-nodes" => {
            let mut t = String::from("circuit x :\n  module x :\n    input a : UInt<8>\n    node n0 = not(a)\n");
            for i in 1..400_000 {
                t += &format!("    node n{} = not(n{})\n", i, i - 1);
            }
            drop(parse(&t));
            false
        }
        "chained-modules" => {
            let mut t = String::from("circuit x :\n  module m0 :\n    skip\n");
            let k = 200_000;
            for i in 1..k {
                t += &format!("  module m{} :\n    inst i of m{}\n", i, i - 1);
            }
            t += &format!("  module x :\n    inst i of m{}\n", k - 1);
            drop(parse(&t).map(|c| c.to_string()));
            false
        }
        "two-modules-of-one-name" => match parse(TWO_MODULES) {
            Err(_) => false,
            Ok(c) => {
                let v = crate::conv::lift(&c);
                let again = parse(&c.to_string()).map_err(|e| e.to_string()).and_then(|c| crate::conv::lift(&c));
                v.is_err() || v != again
            }
        },
        _ => false,
    };
    exit(bad as i32)
}

/// Does the text define several modules of one name?
pub fn repeated_modules(text: &str) -> bool {
    let mut seen = std::collections::HashSet::new();
    text.lines().any(|l| {
        let mut w = l.trim_start().splitn(2, |c: char| c == ' ' || c == '\t');
        let k = w.next().unwrap_or("");
        if k != "module" && k != "extmodule" {
            return false;
        }
        let rest = w.next().unwrap_or("").trim_start();
        let end = rest.find(|c: char| c == ' ' || c == '\t' || c == ':' || c == ';').unwrap_or(rest.len());
        !seen.insert(rest[..end].to_string())
    })
}
