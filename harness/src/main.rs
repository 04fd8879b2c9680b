#![allow(dead_code)]
mod tape;
mod walkall;
#[macro_use]
mod engine;
mod conv;
mod findings;
mod gen;
mod model;
mod mutate;
mod names;
mod oracle;
mod props;
mod reader;
mod render;

use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

use engine::{Fail, Prop};
use tape::Src;

const WORKERS: usize = 8;

fn verif() -> PathBuf {
    std::env::var_os("FAV_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn prop(id: &str) -> &'static Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        exit(2)
    })
}


fn replay_path(id: &str, seed: u64, index: u64) -> PathBuf {
    verif().join("replays").join(format!("{}-{}-{}.txt", id, seed, index))
}

fn write_replay(id: &str, seed: u64, index: u64, total: u64, thorough: bool, tape: Option<&[u64]>, f: &Fail) -> PathBuf {
    let p = replay_path(id, seed, index);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let mut t = format!("property {}\nthorough {}\ntotal {}\nseed {}\nindex {}\n", id, thorough, total, seed, index);
    if let Some(v) = tape {
        t.push_str("tape");
        for x in v {
            t.push_str(&format!(" {}", x));
        }
        t.push('\n');
    }
    t.push_str(&format!("----\n{}\n----\n{}\n", f.msg, f.detail));
    let _ = std::fs::write(&p, t);
    p
}

fn read_replay(path: &str) -> (&'static Prop, bool, u64, u64, u64, Option<Vec<u64>>) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let (mut id, mut th, mut total, mut seed, mut index, mut tape) = (String::new(), false, 0, 0, 0, None);
    for l in t.lines() {
        if l == "----" {
            break;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => id = v.into(),
            "thorough" => th = v == "true",
            "total" => total = v.parse().unwrap(),
            "seed" => seed = v.parse().unwrap(),
            "index" => index = v.parse().unwrap(),
            "tape" => tape = Some(v.split_whitespace().map(|x| x.parse().unwrap()).collect()),
            _ => (),
        }
    }
    (prop(&id), th, total, seed, index, tape)
}

fn violation(id: &str, path: &Path) {
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn in_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(engine::STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

/// Run one case in this process: exit status 1 if it fails
fn single(p: &'static Prop, src: Src, index: u64, total: u64, thorough: bool) -> ! {
    let r = in_thread(|| {
        let mut st = engine::Stats::default();
        engine::run_case(p, src, index, total, thorough, &mut st, false).0
    });
    match r {
        Ok(()) => {
            println!("{}: held on this case", p.id);
            exit(0)
        }
        Err(f) => {
            println!("{}: {}\n{}", p.id, f.msg, f.detail);
            exit(1)
        }
    }
}

/// The search itself, as child process
fn run(id: &str, thorough: bool, seed: u64, progress: &str, result: &str) -> ! {
    let p = prop(id);
    let total = scale(if thorough { p.thorough } else { p.quick });
    let start = Instant::now();
    let limit = Duration::from_secs(if thorough { 700 } else { 240 });
    let f = std::fs::OpenOptions::new().create(true).write(true).open(progress).ok();
    let found = std::sync::Mutex::new(());
    let on_fail = |i: u64, tape: &[u64], f: &Fail| {
        let _l = found.lock();
        let path = write_replay(id, seed, i, total, thorough, Some(tape), f);
        let _ = std::fs::write(result, format!("VIOLATION property={} replay={}\n", id, path.display()));
    };
    let o = engine::run_all(p, seed, total, thorough, WORKERS, f, start + limit, &on_fail);
    let n = o.failure.is_some() as usize;
    let ev = verif().join("evidence").join(format!("{}.json", id));
    if let Err(e) = engine::write_evidence(
        &ev,
        p,
        if thorough { "thorough" } else { "quick" },
        seed,
        &o.stats,
        start.elapsed().as_secs_f64(),
        n,
        total,
        &[],
    ) {
        eprintln!("cannot write {}: {}", ev.display(), e);
        exit(2)
    }
    println!(
        "{}: {} cases, {} distinct non-trivial ones, {} comparisons, {:.1} s",
        id,
        o.stats.cases,
        o.stats.distinct.len(),
        o.stats.checks,
        start.elapsed().as_secs_f64()
    );
    if std::env::var("FAV_STATS").is_ok() {
        println!("{:#?}", o.stats.counters);
    }
    if let Some((i, tape, f)) = o.failure {
        let path = write_replay(id, seed, i, total, thorough, Some(&tape), &f);
        println!("{}\n{}", f.msg, f.detail);
        violation(id, &path);
        exit(1)
    }
    exit(0)
}

fn scale(n: u64) -> u64 {
    match std::env::var("FAV_CASES").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => n,
    }
}

/// A command with limits of memory (KiB) and CPU time (seconds)
fn limited(args: &[String], mem: u64, cpu: u64) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -v {}; ulimit -t {}; exec \"$0\" \"$@\"", mem, cpu)).arg(exe).args(args);
    c
}

fn check(id: &str) -> ! {
    let p = prop(id);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let total = scale(if thorough { p.thorough } else { p.quick });
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = |k: &str| dir.join(format!(".{}-{}-{}", id, std::process::id(), k)).display().to_string();
    let (progress, result) = (tmp("progress"), tmp("result"));
    let _ = std::fs::write(&progress, [0u8; 8 * WORKERS]);
    let clean = || {
        let _ = std::fs::remove_file(&progress);
        let _ = std::fs::remove_file(&result);
    };
    // known findings
    for l in findings::report(&verif().join("known_findings.txt"), id) {
        println!("{}", l);
    }
    let args: Vec<String> =
        ["run", id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &progress, &result].iter().map(|s| s.to_string()).collect();
    // CPU time is bounded by the wall clock below
    let mut child = limited(&args, 26 << 20, 8000).spawn().expect("start");
    let start = Instant::now();
    let max = Duration::from_secs(if thorough { 790 } else { 400 });
    let mut last = [(0u64, Instant::now()); WORKERS];
    let read = || {
        let mut b = [0u8; 8 * WORKERS];
        if let Ok(f) = std::fs::File::open(&progress) {
            let _ = f.read_at(&mut b, 0);
        }
        let mut v = [0u64; WORKERS];
        for i in 0..WORKERS {
            v[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        v
    };
    let early = |child: &mut std::process::Child| {
        let _ = child.kill();
        let _ = child.wait();
        if let Ok(t) = std::fs::read_to_string(&result) {
            if !t.is_empty() {
                print!("{}", t);
                clean();
                exit(1)
            }
        }
    };
    let mut suspects: Vec<u64> = vec![];
    let mut why = String::new();
    loop {
        match child.try_wait().expect("wait") {
            Some(st) => {
                if let Some(c) = st.code() {
                    if c == 0 || c == 1 {
                        clean();
                        exit(c)
                    }
                    if c == 2 {
                        clean();
                        exit(2)
                    }
                }
                early(&mut child);
                why = format!("the process ended with {:?}, signal {:?}", st.code(), st.signal());
                suspects = read().iter().filter(|x| **x > 0).map(|x| x - 1).collect();
                break;
            }
            None => {
                let now = Instant::now();
                for (i, v) in read().into_iter().enumerate() {
                    if v != last[i].0 {
                        last[i] = (v, now)
                    } else if v > 0 && now - last[i].1 > Duration::from_secs(60) {
                        suspects.push(v - 1);
                        why = "a case does not come to an end".into();
                    }
                }
                if !suspects.is_empty() || now - start > max {
                    early(&mut child);
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
    // examine the suspicious cases one by one, each in a process of its own
    suspects.sort();
    for i in suspects {
        let args: Vec<String> = ["case", id, if thorough { "thorough" } else { "quick" }, &seed.to_string(), &i.to_string(), &total.to_string()]
            .iter()
            .map(|s| s.to_string())
            .collect();
        let out = limited(&args, 8 << 20, 40).stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("start");
        if out.status.code() == Some(0) {
            continue;
        }
        let msg = match (out.status.code(), out.status.signal()) {
            (Some(1), _) => String::from_utf8_lossy(&out.stdout).into_owned(),
            (_, Some(9)) | (_, Some(24)) => "no end within 40 s of CPU time (or out of memory)".into(),
            (c, s) => format!("crash: exit status {:?}, signal {:?}: {}", c, s, String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>()),
        };
        let f = Fail { msg: msg.clone(), detail: why.clone() };
        let path = write_replay(id, seed, i, total, thorough, None, &f);
        println!("{}: case {}: {}", id, i, msg);
        violation(id, &path);
        clean();
        exit(1)
    }
    clean();
    println!("{}: no answer: {}", id, if why.is_empty() { "time is up".into() } else { why });
    exit(2)
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("run") => run(&a[2], a[3] == "thorough", a[4].parse().unwrap(), &a[5], &a[6]),
        Some("case") => {
            let p = prop(&a[2]);
            let (seed, index, total) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
            single(p, Src::random(engine::case_seed(seed, p.id, index)), index, total, a[3] == "thorough")
        }
        Some("replay") => {
            let (p, th, total, seed, index, tape) = read_replay(&a[2]);
            let src = match tape {
                Some(t) => Src::replay(t),
                None => Src::random(engine::case_seed(seed, p.id, index)),
            };
            single(p, src, index, total, th)
        }
        Some("probe") => findings::probe(&a[2]),
        Some("list") => {
            for p in props::all() {
                println!("{} {} {} {}", p.id, p.quick, p.thorough, p.rule)
            }
        }
        _ => {
            eprintln!("usage: fav-harness check <property> | replay <file> | list");
            exit(2)
        }
    }
}
