//! Runs the workload on every machine and feature set, and judges what differs from this machine.
use crate::base::mix;
use crate::work::HARNESS;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.into())
}
fn root() -> String {
    env("VERIF_ROOT", "..")
}
fn built() -> String {
    format!("{}/cross/target", root())
}
fn scratch() -> String {
    let d = format!("{}/out/cross-{}", root(), std::process::id());
    std::fs::create_dir_all(&d).expect("sim: scratch directory");
    d
}
#[derive(Clone, Copy, PartialEq)]
enum Where {
    Here,
    /// Another build of the simulator, on this machine.
    Build(&'static str),
    /// Another machine, interpreted.
    Other(&'static str),
}
struct Machine {
    key: &'static str,
    what: &'static str,
    at: Where,
}
const MACHINES: &[Machine] = &[
    Machine { key: "here", what: "this machine, unoptimised build with overflow checks (the reference)", at: Where::Here },
    Machine { key: "asserting", what: "this machine, unoptimised build with assertions", at: Where::Build("asserting") },
    Machine { key: "release", what: "this machine, optimised build without assertions or overflow checks", at: Where::Build("shipped") },
    Machine { key: "s390x", what: "64-bit big-endian machine (s390x-unknown-linux-gnu), interpreted by Miri", at: Where::Other("s390x-unknown-linux-gnu") },
    Machine { key: "i686", what: "32-bit little-endian machine (i686-unknown-linux-gnu), interpreted by Miri", at: Where::Other("i686-unknown-linux-gnu") },
];
fn machine(k: &str) -> &'static Machine {
    MACHINES.iter().find(|m| m.key == k).expect("sim: machine")
}
fn present(m: &Machine) -> bool {
    match m.at {
        Where::Other(t) => env("CROSS_MACHINES", "").split(' ').any(|x| x == t),
        _ => true,
    }
}
fn command(m: &Machine) -> Command {
    let mut c = match m.at {
        Where::Here => Command::new(std::env::current_exe().unwrap()),
        Where::Build(b) => Command::new(format!("{}/{}/cross", built(), b)),
        Where::Other(t) => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "-q", "--manifest-path"]).arg(format!("{}/cross/Cargo.toml", root())).args(["--target", t, "--"]);
            c.env("CARGO_TARGET_DIR", format!("{}/{}", built(), t)).env("XDG_CACHE_HOME", format!("{}/{}", built(), t)).env("MIRIFLAGS", env("CROSS_MIRIFLAGS", ""));
            c
        }
    };
    c.stdin(Stdio::null());
    c
}
/// Runs to the end, output collected; killed after `limit`.
fn collect(mut c: Command, tag: &str, limit: Duration) -> (Option<i32>, String, String) {
    let (o, e) = (format!("{}.out", tag), format!("{}.err", tag));
    c.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    // A group of its own: the interpreter is a grandchild.
    c.process_group(0);
    let mut k = c.spawn().expect("sim: process");
    let t0 = Instant::now();
    let code = loop {
        match k.try_wait().unwrap() {
            Some(s) => break s.code(),
            None if t0.elapsed() > limit => {
                let _ = Command::new("kill").args(["-9", "--", &format!("-{}", k.id())]).status();
                let _ = k.kill();
                let _ = k.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let get = |p: &str| {
        let mut b = Vec::new();
        let _ = std::fs::File::open(p).and_then(|mut f| f.read_to_end(&mut b));
        String::from_utf8_lossy(&b).into_owned()
    };
    let r = (code, get(&o), get(&e));
    let _ = std::fs::remove_file(&o);
    let _ = std::fs::remove_file(&e);
    r
}
#[derive(Clone, Default)]
struct Shown {
    class: String,
    msg: String,
    hash: String,
    tape: Vec<u32>,
    trace: Vec<String>,
}
fn shown(l: &str) -> Option<Shown> {
    let f: Vec<&str> = l.split('\t').collect();
    if f.len() < 5 {
        return None;
    }
    Some(Shown { class: f[1].into(), msg: f[2].into(), hash: f[3].into(), tape: tape(f[4]), trace: vec![] })
}
fn tape(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}
const ENDLESS: &str = "the run does not end";
const ENDED: &str = "the process ends";
/// How a process of the machine ended other than by itself: what its run means.
fn ended(code: Option<i32>, err: &str) -> Shown {
    let l = err.lines().find(|l| l.starts_with("error")).or_else(|| err.lines().next()).unwrap_or("");
    if l.contains("unsupported operation") {
        return Shown { class: HARNESS.into(), msg: format!("this cannot be interpreted: {}", l), ..Shown::default() };
    }
    match code {
        None => Shown { class: ENDLESS.into(), msg: l.into(), ..Shown::default() },
        Some(c) => Shown { class: ENDED.into(), msg: format!("status {}: {}", c, l), ..Shown::default() },
    }
}
/// The outcomes of tapes on a machine, up to the first which ends the process.
fn attempt(m: &Machine, tapes: &[Vec<u32>], keep: bool, dir: &str) -> Vec<Shown> {
    let f = format!("{}/try-{}", dir, m.key);
    std::fs::write(&f, tapes.iter().map(|t| crate::work::text(t) + "\n").collect::<String>()).unwrap();
    let mut c = command(m);
    c.arg("try").arg(&f).env("CROSS_DIR", dir);
    if keep {
        c.arg("keep");
    }
    let (code, out, err) = collect(c, &f, Duration::from_secs(if matches!(m.at, Where::Other(_)) { 90 } else { 10 }));
    let mut v: Vec<Shown> = Vec::new();
    let mut open = false;
    for l in out.lines() {
        if l == "next" {
            open = true;
        } else if l.starts_with("tried\t") {
            if let Some(s) = shown(l) {
                v.push(s);
                open = false;
            }
        } else if let Some(s) = v.last_mut() {
            s.trace.push(l.trim_start().into());
        }
    }
    if code != Some(0) && open && v.len() < tapes.len() {
        let mut s = ended(code, &err);
        s.tape = tapes[v.len()].clone();
        s.hash = "-".into();
        v.push(s);
    }
    v
}
/// A failure's kind without what varies.
fn kind(c: &str) -> String {
    c.chars().filter(|c| !c.is_ascii_digit()).collect()
}
/// Only built when it is needed.
fn asserting() -> bool {
    static BUILT: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *BUILT.get_or_init(|| {
        let mut c = Command::new("cargo");
        c.args(["build", "--offline", "-q", "--profile", "asserting", "--manifest-path"]).arg(format!("{}/cross/Cargo.toml", root())).arg("--target-dir").arg(built());
        c.stdin(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false)
    })
}
/// Whether a run is right on this machine, in a build which belongs to the reference, and how long it takes.
fn right_here(m: &Machine, tape: &Vec<u32>, dir: &str) -> Option<Duration> {
    let ok = |m: &Machine| {
        let t0 = Instant::now();
        let r = attempt(m, &[tape.clone()], false, dir);
        r.first().filter(|s| s.class == "ok").map(|_| t0.elapsed())
    };
    ok(machine("here")).or_else(|| if m.key == "release" && asserting() { ok(machine("asserting")) } else { None })
}
/// Smaller variants of a tape, boldest first.
fn variants(t: &[u32], round: usize) -> Vec<Vec<u32>> {
    let mut v = Vec::new();
    let n = t.len();
    for k in [n / 2, n / 4, n / 8, 4, 2, 1] {
        if k == 0 {
            continue;
        }
        let mut i = 0;
        while i < n && v.len() < 400 {
            let mut c = t.to_vec();
            c.drain(i..(i + k).min(n));
            v.push(c);
            i += k;
        }
    }
    for i in 0..n {
        if t[i] != 0 {
            let mut c = t.to_vec();
            c[i] = 0;
            v.push(c);
            if t[i] > 2 {
                let mut c = t.to_vec();
                c[i] = t[i] / 2;
                v.push(c);
            }
        }
    }
    let r = round % v.len().max(1);
    v.rotate_left(r);
    v
}
fn shrink(m: &Machine, first: Shown, dir: &str, limit: Duration) -> (Shown, usize) {
    let t0 = Instant::now();
    let mut best = first;
    let (mut tries, mut at, mut idle) = (0, 0, 0);
    while t0.elapsed() < limit {
        let v = variants(&best.tape, at);
        if v.is_empty() || idle > v.len() {
            break;
        }
        let batch: Vec<Vec<u32>> = v.into_iter().take(12).collect();
        let r = attempt(m, &batch, false, dir);
        tries += r.len();
        let hit = r.iter().position(|s| kind(&s.class) == kind(&best.class) && s.tape.len() <= best.tape.len() && (s.tape.len() < best.tape.len() || s.tape < best.tape));
        match hit {
            Some(i) if right_here(m, &batch[i], dir).is_some() => {
                best = r[i].clone();
                idle = 0;
            }
            Some(i) => {
                at += i + 1;
                idle += i + 1;
            }
            None => {
                at += r.len().max(1);
                idle += r.len().max(1);
            }
        }
    }
    (best, tries)
}
#[derive(Default)]
struct Sum {
    runs: u64,
    steps: u64,
    distinct: u64,
    ms: u64,
    counts: BTreeMap<String, u64>,
}
fn replay_path(text: &str) -> String {
    let h = text.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    std::fs::create_dir_all(format!("{}/out", root())).unwrap();
    format!("{}/out/C33-{:08x}.replay", root(), h as u32)
}
const LEAN: &[&str] = &["std", "alloc", "core"];
fn lean(f: &str) -> Command {
    let mut c = Command::new(format!("{}/lean-{}/debug/lean", built(), f));
    c.stdin(Stdio::null());
    c
}
fn lean_try(t: &[u32], full: bool, dir: &str) -> Vec<String> {
    LEAN.iter()
        .map(|f| {
            let p = format!("{}/lean-try", dir);
            std::fs::write(&p, crate::work::text(t) + "\n").unwrap();
            let mut c = lean(f);
            c.arg("try").arg(&p);
            if full {
                c.arg("full");
            }
            let (code, out, err) = collect(c, &p, Duration::from_secs(60));
            match code {
                Some(0) => out,
                c => format!("the process ends with {:?}: {}", c, err.lines().next().unwrap_or("")),
            }
        })
        .collect()
}
/// A feature set in which this run comes out differently than with the standard library.
fn lean_differs(t: &[u32], dir: &str) -> Option<usize> {
    let o = lean_try(t, false, dir);
    (1..LEAN.len()).find(|&k| o[k].trim() != "-" && o[k] != o[0])
}
fn lean_report(t: Vec<u32>, seed: u64, index: u64, dir: &str) -> Option<String> {
    lean_differs(&t, dir)?;
    let mut best = t;
    let t0 = Instant::now();
    let mut again = true;
    while again && t0.elapsed() < Duration::from_secs(40) {
        again = false;
        for v in variants(&best, 0) {
            if lean_differs(&v, dir).is_some() {
                best = v;
                again = true;
                break;
            }
            if t0.elapsed() > Duration::from_secs(40) {
                break;
            }
        }
    }
    let k = lean_differs(&best, dir)?;
    let o = lean_try(&best, true, dir);
    let mut s = String::new();
    writeln!(s, "property=C33\nmachine=features\nfeature set={}\nseed={} run={}\ntape={}\n\nwith std:\n{}\nwith {}:\n{}", LEAN[k], seed, index, crate::work::text(&best), o[0], LEAN[k], o[k]).unwrap();
    let p = replay_path(&s);
    std::fs::write(&p, s).unwrap();
    println!("the feature set {} comes out differently", LEAN[k]);
    Some(p)
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn check() -> i32 {
    let t0 = Instant::now();
    let dir = scratch();
    let r = checked(&dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn checked(dir: &str, t0: Instant) -> i32 {
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let thorough = env("VERIF_TIER", "quick") == "thorough";
    let scale: f64 = env("SIM_SCALE", "1").parse().unwrap_or(1.0);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(2);
    let mut bad: Vec<String> = Vec::new();
    let mut harness: Vec<String> = Vec::new();
    let mut samples: Vec<String> = Vec::new();
    let mut sums: BTreeMap<String, Sum> = BTreeMap::new();

    // Feature sets: the same runs, and the same texts.
    let n = (if thorough { 6_000_000.0 } else { 400_000.0 } * scale) as u64;
    let parts = 8u64;
    let lseed = mix(seed, 0x1ea9) >> 1;
    let texts: Vec<Vec<(Option<i32>, String, String)>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..parts)
            .map(|p| {
                s.spawn(move || {
                    LEAN.iter()
                        .map(|f| {
                            let mut c = lean(f);
                            c.args(["work", &lseed.to_string(), &(p * (n / parts)).to_string(), &(n / parts).to_string()]);
                            collect(c, &format!("{}/lean-{}-{}", dir, f, p), Duration::from_secs(600))
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut distinct: BTreeMap<&str, std::collections::HashSet<&str>> = BTreeMap::new();
    let mut differs: Vec<u64> = Vec::new();
    for (p, t) in texts.iter().enumerate() {
        for (k, f) in LEAN.iter().enumerate() {
            if t[k].0 != Some(0) {
                let m = format!("the workload with {} ended with {:?}: {}", f, t[k].0, t[k].2.lines().next().unwrap_or(""));
                harness.push(m);
            }
            if t[k].2.contains("sim:") {
                harness.push(t[k].2.lines().find(|l| l.contains("sim:")).unwrap_or("").into());
            }
            let d = distinct.entry(f).or_default();
            let s = sums.entry(format!("features {}", f)).or_default();
            for (i, (l, r)) in t[k].1.lines().zip(t[0].1.lines()).enumerate() {
                if l == "-" {
                    continue;
                }
                s.runs += 1;
                d.insert(l);
                if l != r {
                    differs.push(p as u64 * (n / parts) + i as u64);
                }
            }
        }
    }
    for (f, d) in &distinct {
        sums.get_mut(&format!("features {}", f)).unwrap().distinct = d.len() as u64;
    }
    differs.sort();
    let draws = |i: u64| {
        let mut c = lean("std");
        c.args(["tape", &lseed.to_string(), &i.to_string()]);
        tape(&collect(c, &format!("{}/tape", dir), Duration::from_secs(60)).1)
    };
    if let Some(&i) = differs.first() {
        match lean_report(draws(i), lseed, i, dir) {
            Some(p) => bad.push(p),
            None => harness.push(format!("run {} of the feature sets did not repeat", i)),
        }
    }
    let o = lean_try(&draws(17), true, dir);
    samples.push(format!("feature sets, run 17: {}", o[0].chars().take(600).collect::<String>().replace('\n', "; ")));

    // Machines: the same checks, which know what is right.
    let wseed = mix(seed, 0xC33) >> 1;
    let mut jobs: Vec<(&Machine, Vec<(u64, u64, u64)>)> = Vec::new();
    let quick = Duration::from_secs_f64(10.0 * scale);
    let slow = Duration::from_secs_f64(if thorough { 1500.0 } else { 110.0 } * scale);
    let w = cores as u64;
    jobs.push((machine("release"), (0..w).map(|k| (k, w, if thorough { 60 } else { quick.as_secs().max(1) })).collect()));
    let others: Vec<&Machine> = MACHINES.iter().filter(|m| matches!(m.at, Where::Other(_)) && present(m)).collect();
    let skipped: Vec<&Machine> = MACHINES.iter().filter(|m| matches!(m.at, Where::Other(_)) && !present(m)).collect();
    let each = (w / others.len().max(1) as u64).max(1);
    // All interpreted machines at once, after the native one.
    let rounds: Vec<Vec<(&Machine, u64, u64, u64)>> = vec![
        jobs[0].1.iter().map(|&(a, b, s)| (jobs[0].0, a, b, s)).collect(),
        others.iter().flat_map(|m| (0..each).map(move |k| (*m, k, each, slow.as_secs().max(1)))).collect(),
    ];
    let mut found: Vec<(&Machine, u64, Shown)> = Vec::new();
    let (mut not_here, mut slow_runs, mut cut) = (0, 0, 0);
    for (rn, round) in rounds.iter().enumerate() {
        let outs: Vec<(&Machine, (Option<i32>, String, String))> = std::thread::scope(|s| {
            let h: Vec<_> = round
                .iter()
                .map(|&(m, first, step, secs)| {
                    s.spawn(move || {
                        let d = format!("{}/{}-{}", dir, m.key, first);
                        std::fs::create_dir_all(&d).unwrap();
                        let mut c = command(m);
                        // The machines run different cases: the native build comes first and takes the most.
                        let ws = wseed + matches!(m.at, Where::Other(_)) as u64;
                        c.args(["work", &ws.to_string(), &first.to_string(), &step.to_string(), &secs.to_string(), "1000000000"]).env("CROSS_DIR", &d);
                        (m, collect(c, &format!("{}/log", d), Duration::from_secs(secs + if matches!(m.at, Where::Other(_)) { 80 } else { 20 })))
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (m, (code, out, err)) in outs {
            let s = sums.entry(m.what.to_string()).or_default();
            let mut last = None;
            for l in out.lines() {
                if let Some(i) = l.strip_prefix("at ") {
                    last = i.parse::<u64>().ok();
                } else if let Some(r) = l.strip_prefix("bad ") {
                    let i = r.split('\t').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    if let Some(x) = shown(l) {
                        found.push((m, i, x));
                    }
                } else if let Some(r) = l.strip_prefix("count\t") {
                    if let Some((v, k)) = r.split_once('\t') {
                        *s.counts.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                } else if let Some(r) = l.strip_prefix("done\t") {
                    let f: Vec<u64> = r.split('\t').map(|x| x.parse().unwrap_or(0)).collect();
                    s.runs += f[0];
                    s.steps += f[1];
                    s.distinct += f[2];
                    s.ms += f[3];
                    last = None;
                }
            }
            if code != Some(0) {
                match last {
                    Some(i) => {
                        // The draws are the same where the run ends.
                        let ws = wseed + rn as u64;
                        let draws = |b: &Machine| {
                            let mut c = command(b);
                            c.args(["try", "seed", &ws.to_string(), &i.to_string()]).env("CROSS_DIR", dir);
                            let (_, o, _) = collect(c, &format!("{}/seed", dir), Duration::from_secs(5));
                            o.lines().find_map(shown).map(|s| s.tape)
                        };
                        cut += 1;
                        if cut > 20 {
                            not_here += 1;
                            continue;
                        }
                        let Some(t) = draws(machine("here")).or_else(|| if m.key == "release" && asserting() { draws(machine("asserting")) } else { None }) else {
                            not_here += 1;
                            continue;
                        };
                        let mut x = ended(code, &err);
                        x.tape = t;
                        found.push((m, i, x));
                    }
                    None => harness.push(format!("{} could not be run ({:?}): {}", m.key, code, err.lines().find(|l| l.starts_with("error")).unwrap_or(""))),
                }
            }
        }
    }
    found.sort_by_key(|x| (x.1, x.0.key));
    // There is enough time for some of them.
    let limit = slow * 4;
    let mut reported: Vec<&str> = Vec::new();
    for (m, i, x) in found {
        if x.class == HARNESS {
            harness.push(format!("{} run {}: {}", m.key, i, x.msg));
            continue;
        }
        if reported.contains(&m.key) || t0.elapsed() > limit {
            continue;
        }
        // What fails here as well is not a matter of the machine, nor is a run which is long here.
        let Some(time) = right_here(m, &x.tape, dir) else {
            not_here += 1;
            continue;
        };
        if x.class == ENDLESS && time > Duration::from_millis(60) {
            slow_runs += 1;
            continue;
        }
        let again = attempt(m, &[x.tape.clone()], false, dir);
        match again.first() {
            Some(a) if kind(&a.class) == kind(&x.class) => {
                let (best, tries) = shrink(m, a.clone(), dir, Duration::from_secs(if matches!(m.at, Where::Other(_)) { 75 } else { 20 }));
                let fin = attempt(m, &[best.tape.clone()], true, dir).into_iter().next().unwrap_or_default();
                let rep = if kind(&fin.class) == kind(&best.class) { fin } else { best };
                let mut s = String::new();
                writeln!(s, "property=C33\nmachine={}\nclass={}\nmessage={}\nhash={}\nseed={} run={} ({} attempts to minimise)\ntape={}\n\ntrace on that machine:", m.key, rep.class, rep.msg, rep.hash, wseed, i, tries, crate::work::text(&rep.tape)).unwrap();
                for e in &rep.trace {
                    writeln!(s, "  {}", e).unwrap();
                }
                let p = replay_path(&s);
                std::fs::write(&p, s).unwrap();
                println!("{}: {}: {}", m.key, rep.class, rep.msg);
                bad.push(p);
                reported.push(m.key);
            }
            _ => harness.push(format!("{} run {} did not repeat: {}: {}", m.key, i, x.class, x.msg)),
        }
    }
    if let Some(m) = others.first() {
        let r = attempt(m, &[(0..60).map(|k| mix(seed, k) as u32 >> 8).collect()], true, dir);
        if let Some(r) = r.first() {
            samples.push(format!("{}: {}: {}", m.key, r.class, r.trace.join("; ").chars().take(600).collect::<String>()));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs: u64 = sums.values().map(|s| s.runs).sum();
    let list = |v: Vec<String>| format!("[{}]", v.join(", "));
    let mut per = Vec::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for (k, s) in &sums {
        per.push(format!("{}: {{\"runs\": {}, \"distinct\": {}, \"steps\": {}, \"cpu_s\": {}}}", json(k), s.runs, s.distinct, s.steps, s.ms / 1000));
        for (c, n) in &s.counts {
            *counts.entry(c.clone()).or_insert(0) += n;
        }
    }
    let counts: Vec<String> = counts.iter().map(|(k, n)| format!("{}: {}", json(k.trim_start_matches('~')), n)).collect();
    let e = format!(
        "{{\n \"property\": \"C33\", \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"configurations\": {{{}}},\n  \"not_available_here\": {},\n  \"simulated_runs_per_hour\": {}, \"seeds\": {},\n  \"faults_and_conditions_injected\": {{{}}},\n  \"failures_here_as_well\": {}, \"runs_too_long_to_interpret\": {},\n  \"distinctness_measure\": \"hash of the whole event trace of a run; for the feature sets, of its text\",\n  \"real_code\": {},\n  \"simulated_or_stubbed\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        runs,
        sums.values().map(|s| s.distinct).sum::<u64>(),
        json("one run on a machine: a seeded case of the checks of C01, C02, C04 to C06, C10, C11, C14 to C16, or an exchange with the reference encoding, on small values; one run of a feature set: a value encoded into buffers and an input derived from it decoded, the outcome compared with that of the build with the standard library; distinct by trace or text, and every run encodes or decodes a value"),
        list(samples.iter().map(|s| json(s)).collect()),
        per.join(", "),
        list(skipped.iter().map(|m| json(m.what)).collect()),
        (runs as f64 / wall.max(0.001) * 3600.0) as u64,
        runs,
        counts.join(", "),
        not_here,
        slow_runs,
        list(["speedy and speedy-derive from /repo", "Rust standard library of each machine"].map(json).to_vec()),
        list(["the machine itself: byte order and pointer width (Miri)", "byte streams and sinks"].map(json).to_vec()),
        list(["Miri interprets other machines faithfully", "a failure counts only where the same tape passes on this machine; what fails everywhere belongs to the other properties"].map(json).to_vec()),
        wall,
        bad.len()
    );
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/C33.json", root()), e).unwrap();
    println!("C33: {} runs, {:.1} s", runs, wall);
    for m in &skipped {
        println!("not available here: {}", m.what);
    }
    if not_here > 0 {
        println!("{} failures are not a matter of the machine", not_here);
    }
    if !bad.is_empty() {
        for p in &bad {
            println!("VIOLATION property=C33 replay={}", p);
        }
        return 1;
    }
    if !harness.is_empty() {
        for h in harness.iter().take(5) {
            eprintln!("harness error: {}", h);
        }
        return 2;
    }
    0
}
/// Exit 1 when the recorded failure happens again, exactly.
pub fn replay(path: &str) -> i32 {
    let dir = scratch();
    let s = std::fs::read_to_string(path).expect("sim: replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let t = tape(&get("tape="));
    let code = if get("machine=") == "features" {
        let o = lean_try(&t, true, &dir);
        for (f, o) in LEAN.iter().zip(&o) {
            println!("with {}:\n{}", f, o);
        }
        lean_differs(&t, &dir).is_some() as i32
    } else {
        let m = machine(&get("machine="));
        let here = attempt(machine("here"), &[t.clone()], false, &dir);
        println!("here: {}", here.first().map(|x| x.class.as_str()).unwrap_or("?"));
        let r = attempt(m, &[t], true, &dir).into_iter().next().unwrap_or_default();
        for e in &r.trace {
            println!("  {}", e);
        }
        println!("{}: {}: {}", m.key, r.class, r.msg);
        let same = r.class == get("class=") && r.msg == get("message=") && r.hash == get("hash=");
        println!("{}", if same { "as recorded" } else { "not as recorded" });
        same as i32
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
