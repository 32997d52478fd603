//! Runs cases: a parent process hands seeds to worker processes, watches them, minimises whatever fails and writes
//! the replay file and the evidence.
use crate::base::*;
use crate::props;
use crate::registry::{self, Prop};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub const HARNESS: &str = "harness";

pub struct Done {
    pub res: Res,
    pub rec: Vec<u32>,
    pub hash: u64,
    pub steps: u64,
    pub now: u64,
    pub st: Stats,
    pub evs: Vec<String>,
}
fn disk() -> crate::os::Disk {
    Default::default()
}
/// One simulated run: a pure function of the tape.
pub fn run_case(f: fn() -> Res, tape: Tape, keep: bool, thorough: bool) -> Done {
    run_case_as(f, tape, keep, thorough, false)
}
pub fn run_case_as(f: fn() -> Res, tape: Tape, keep: bool, thorough: bool, control: bool) -> Done {
    let mut world = Box::new(World { tape, tr: Trace::new(keep), st: Stats::default(), disk: disk(), now: 0, panic_text: None, thorough, control, after: None, parts: None });
    set_world(&mut *world);
    let seed = below(u32::MAX) as u64;
    crate::os::set_hash_seed(seed);
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(f);
            crate::types::end_case();
            crate::props_user::end_case();
            match r {
                Ok(r) => r,
                Err(p) => {
                    let text = w().panic_text.take().unwrap_or_default();
                    if let Some(p) = p.downcast_ref::<Planned>() {
                        return viol(HARNESS, format!("planned panic escaped: {}", p.0));
                    }
                    let mut s = text;
                    if s.is_empty() {
                        s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "?".into());
                    }
                    if s.contains("sim:") {
                        viol(HARNESS, s)
                    } else {
                        viol("panic", s)
                    }
                }
            }
        })
        .expect("sim: thread");
    let res = match h.join() {
        Ok(r) => r,
        Err(_) => viol(HARNESS, "sim: the case thread died"),
    };
    world.disk.cleanup();
    set_world(std::ptr::null_mut());
    let wd = *world;
    Done { res, rec: wd.tape.rec, hash: wd.tr.hash, steps: wd.tr.steps, now: wd.now, st: wd.st, evs: wd.tr.evs }
}
const OWN: &[&str] = &["base.rs", "alloc.rs", "os.rs", "sched.rs", "step.rs", "stream.rs", "runner.rs", "model.rs", "main.rs"];
fn hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::step::paused(|| {
            crate::alloc::unscope(|| {
                let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
                let msg = info
                    .payload()
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| info.payload().downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_else(|| "panic".into());
                let name = loc.0.rsplit('/').next().unwrap_or("");
                let own = (OWN.contains(&name) || name.starts_with("props")) && (loc.0.starts_with("src/") || loc.0.contains("verif"));
                let s = format!("{}{} at {}:{}", if own && !msg.contains("sim:") { "sim: " } else { "" }, msg, loc.0, loc.1);
                if std::env::var("SIM_PANICS").is_ok() {
                    eprintln!("{}", s);
                }
                if has_world() {
                    w().panic_text = Some(s);
                } else {
                    eprintln!("{}", s);
                }
            })
        })
    }));
}
fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn id_hash(id: &str) -> u64 {
    hash_bytes(id.as_bytes())
}
fn map_shared(path: &str, create: bool) -> *mut Shared {
    use std::os::fd::AsRawFd;
    let len = std::mem::size_of::<Shared>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("sim: shared file");
    if create {
        f.set_len(0).unwrap();
        f.set_len(len as u64).unwrap();
    }
    let p = unsafe { crate::os::sys6(9, 0, len as u64, 3, 1, f.as_raw_fd() as u64, 0) };
    assert!(p > 0, "sim: mmap");
    p as *mut Shared
}
/// A scratch directory of this invocation, shared with its worker processes.
fn out_dir(_id: &str) -> String {
    std::env::var("SIM_DIR").expect("sim: no scratch directory")
}
/// Runs `f` with a scratch directory, which two checks running at once do not share.
pub fn in_scratch(f: impl FnOnce() -> i32) -> i32 {
    if std::env::var("SIM_DIR").is_ok() {
        return f();
    }
    let d = format!("{}/out/run-{}", root(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("SIM_DIR", &d);
    let r = f();
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn tape_text(t: &[u32]) -> String {
    let mut s = String::new();
    for x in t {
        write!(s, "{} ", x).unwrap();
    }
    s
}
fn one_line(s: &str) -> String {
    s.replace('\n', " / ").replace('\r', " ")
}

pub fn main() -> i32 {
    hook();
    crate::step::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => worker(&a[2..]),
        Some("exec") => exec(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("directed") => directed(&a[2], &a[3]),
        Some("case") => {
            // `case ID INDEX [N]`: regenerates one case of VERIF_SEED and prints its trace, N times over.
            let p = prop(&a[2]);
            let s = mix(mix(env_seed(), id_hash(p.id)), a[3].parse().unwrap());
            for _ in 0..a.get(4).map(|x| x.parse().unwrap()).unwrap_or(1) {
                let d = run_case(p.case, Tape::generate(s), true, std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false));
                for e in &d.evs {
                    println!("  {}", e);
                }
                println!("hash {} outcome {:?}", d.hash, d.res);
            }
            0
        }
        Some("list") => {
            for p in registry::all() {
                println!("{} {}", p.id, p.runs);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check ID | replay FILE | exec ID TAPEFILE | list");
            2
        }
    }
}
fn prop(id: &str) -> Prop {
    registry::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("sim: unknown property {}", id))
}

// ---------------------------------------------------------------------------------------------------------------
fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let n: u64 = a[1].parse().unwrap();
    let k: u64 = a[2].parse().unwrap();
    let runs: u64 = a[3].parse().unwrap();
    let secs: u64 = a[4].parse().unwrap();
    let thorough = a[5] == "1";
    let first: u64 = a[6].parse().unwrap();
    let dir = out_dir(p.id);
    let sh = map_shared(&format!("{}/shared{}", dir, n), false);
    let all = map_shared(&format!("{}/shared{}", dir, k), false);
    set_shared(sh);
    let stop = unsafe { &(*all).case_index };
    let seed = mix(env_seed(), id_hash(p.id));
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut steps, mut now, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut flaky: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut dismissed = 0;
    let mut i = first + n;
    let mut code = 0;
    while i < first + runs {
        if t0.elapsed().as_secs() >= secs || i > stop.load(Ordering::SeqCst) {
            break;
        }
        let s = shared().unwrap();
        s.tape_len.store(0, Ordering::Relaxed);
        s.note_len.store(0, Ordering::Relaxed);
        s.case_index.store(i, Ordering::SeqCst);
        s.heartbeat.fetch_add(1, Ordering::SeqCst);
        let d = run_case(p.case, Tape::generate(mix(seed, i)), false, thorough);
        evals += 1;
        steps += d.steps;
        now += d.now;
        for (k, v) in &d.st.counts {
            st.add(k, *v);
        }
        if d.steps >= p.min_steps && hashes.insert(d.hash) {
            nontrivial += 1;
        }
        let mut res = d.res;
        if p.control && matches!(&res, Err(v) if v.class != HARNESS) && dismissed < 200 && !try_as(&p, &d.rec, thorough, false, &format!("w{}", n), true).class.eq("ok") {
            // The workload fails all by itself: not this property's doing.
            dismissed += 1;
            st.add("runs whose failure also happens without the conditions under test", 1);
            res = Ok(());
        }
        match res {
            Err(v) => {
                stop.fetch_min(i, Ordering::SeqCst);
                let mut s = String::new();
                writeln!(s, "index {}\nclass {}\nmessage {}\nhash {}\ntape {}", i, one_line(&v.class), one_line(&v.msg), d.hash, tape_text(&d.rec)).unwrap();
                std::fs::write(format!("{}/viol{}", dir, n), s).unwrap();
                code = 1;
                break;
            }
            Ok(()) => {
                if evals % 64 == 7 {
                    let e = run_case(p.case, Tape::replay(d.rec.clone()), false, thorough);
                    if e.hash != d.hash || e.res.is_err() {
                        flaky.push(i);
                    }
                    st.add("runs executed a second time from their recorded tape", 1);
                }
                if samples.len() < 2 && n < 3 && evals > 3 && d.steps >= p.min_steps {
                    let e = run_case(p.case, Tape::replay(d.rec.clone()), true, thorough);
                    let mut s = format!("case {} (tape of {} draws): ", i, d.rec.len());
                    for x in e.evs.iter().take(40) {
                        s.push_str(x);
                        s.push_str("; ");
                    }
                    samples.push(s.chars().take(1500).collect());
                }
            }
        }
        i += k;
    }
    let mut s = String::new();
    writeln!(s, "evals {}\nsteps {}\nnow {}\nnontrivial {}", evals, steps, now, nontrivial).unwrap();
    for x in flaky {
        writeln!(s, "flaky {}", x).unwrap();
    }
    for (k, v) in &st.counts {
        writeln!(s, "count {} {}", v, k).unwrap();
    }
    for x in &samples {
        writeln!(s, "sample {}", one_line(x)).unwrap();
    }
    std::fs::write(format!("{}/res{}", dir, n), s).unwrap();
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/hash{}", dir, n), hb).unwrap();
    code
}

/// `exec ID TAPEFILE OUT THOROUGH KEEP`: runs one tape and reports what happened.
fn exec(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let t: Vec<u32> = std::fs::read_to_string(&a[1]).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let sh = map_shared(&format!("{}.shared", a[2]), true);
    set_shared(sh);
    let control = a.get(5).map(|x| x == "1").unwrap_or(false);
    // Earlier cases first, if what they left behind matters.
    if let Some((seed, list)) = a.get(6).and_then(|x| x.split_once(':')) {
        let seed: u64 = seed.parse().unwrap();
        for i in list.split(',').filter_map(|x| x.parse::<u64>().ok()) {
            run_case(p.case, Tape::generate(mix(seed, i)), false, a[3] == "1");
        }
    }
    let mut d = run_case_as(p.case, Tape::replay(t), a[4] == "1", a[3] == "1", control);
    if p.control && !control && matches!(&d.res, Err(v) if v.class != HARNESS) && try_as(&p, &d.rec, a[3] == "1", false, &format!("x{}", std::process::id()), true).class != "ok" {
        d.res = Ok(());
    }
    let mut s = String::new();
    match &d.res {
        Ok(()) => writeln!(s, "class ok\nmessage -").unwrap(),
        Err(v) => writeln!(s, "class {}\nmessage {}", one_line(&v.class), one_line(&v.msg)).unwrap(),
    }
    writeln!(s, "hash {}\ntape {}", d.hash, tape_text(&d.rec)).unwrap();
    for e in &d.evs {
        writeln!(s, "  {}", one_line(e)).unwrap();
    }
    std::fs::write(&a[2], s).unwrap();
    0
}
#[derive(Clone, Debug, Default)]
struct Out {
    class: String,
    msg: String,
    hash: String,
    tape: Vec<u32>,
    evs: Vec<String>,
    /// Earlier cases (of this seed) that ran in the same process and without which it does not fail.
    before: Vec<u64>,
    seed: u64,
}
fn wait(c: &mut Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    let mut nap = 200;
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    }
}
fn ended(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(n) => format!("signal {}", n),
        None => match s.code() {
            Some(77) => "heap corruption".into(),
            Some(78) => "absurd allocation".into(),
            c => format!("exit {:?}", c),
        },
    }
}
fn shared_note(sh: *mut Shared) -> (String, Vec<u32>) {
    let s = unsafe { &*sh };
    let n = (s.note_len.load(Ordering::SeqCst) as usize).min(256);
    let note = String::from_utf8_lossy(&s.note[..n]).into_owned();
    let m = (s.tape_len.load(Ordering::SeqCst) as usize).min(TAPE_MAX);
    (note, s.tape[..m].to_vec())
}
fn unmap(sh: *mut Shared) {
    unsafe {
        crate::os::sys6(11, sh as u64, std::mem::size_of::<Shared>() as u64, 0, 0, 0, 0);
    }
}
/// Runs a tape in a process of its own.
fn try_tape(p: &Prop, tape: &[u32], thorough: bool, keep: bool, slot: &str) -> Out {
    try_as(p, tape, thorough, keep, slot, false)
}
fn try_as(p: &Prop, tape: &[u32], thorough: bool, keep: bool, slot: &str, control: bool) -> Out {
    try_after(p, tape, thorough, keep, slot, control, 0, &[])
}
#[allow(clippy::too_many_arguments)]
fn try_after(p: &Prop, tape: &[u32], thorough: bool, keep: bool, slot: &str, control: bool, seed: u64, before: &[u64]) -> Out {
    let hist = format!("{}:{}", seed, before.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let dir = out_dir(p.id);
    let tf = format!("{}/try{}.tape", dir, slot);
    let of = format!("{}/try{}.out", dir, slot);
    std::fs::write(&tf, tape_text(tape)).unwrap();
    let _ = std::fs::remove_file(&of);
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["exec", p.id, &tf, &of, if thorough { "1" } else { "0" }, if keep { "1" } else { "0" }, if control { "1" } else { "0" }, &hist])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let st = wait(&mut c, if before.is_empty() { 40 } else { 100 });
    let mut r = match (std::fs::read_to_string(&of), &st) {
        (Ok(s), Some(x)) if x.success() => parse_out(&s),
        _ => {
            let sh = map_shared(&format!("{}.shared", of), false);
            let (note, t) = shared_note(sh);
            unmap(sh);
            match st {
                None => Out { class: "hang".into(), msg: "the run does not end".into(), hash: "-".into(), tape: t, ..Out::default() },
                Some(x) => Out { class: format!("crash: {}", ended(&x)), msg: format!("the process died ({}) {}", ended(&x), note), hash: "-".into(), tape: t, ..Out::default() },
            }
        }
    };
    let _ = std::fs::remove_file(format!("{}.shared", of));
    if slot.starts_with('x') {
        let _ = std::fs::remove_file(&tf);
        let _ = std::fs::remove_file(&of);
    }
    r.before = before.to_vec();
    r.seed = seed;
    r
}
/// Which earlier cases of the worker does the failure need? None if even all of them do not bring it back.
fn find_history(p: &Prop, o: &Out, thorough: bool, seed: u64, earlier: &[u64]) -> Option<Out> {
    let t0 = Instant::now();
    let go = |b: &[u64]| {
        let r = try_after(p, &o.tape, thorough, false, "h", false, seed, b);
        if same(&r.class, &o.class) {
            Some(r)
        } else {
            None
        }
    };
    let mut n = 1;
    let mut best = loop {
        let b = &earlier[earlier.len().saturating_sub(n)..];
        if let Some(r) = go(b) {
            break r;
        }
        if n >= earlier.len() || t0.elapsed() > Duration::from_secs(150) {
            return None;
        }
        n *= 4;
    };
    let mut size = best.before.len() / 2;
    while size >= 1 && t0.elapsed() < Duration::from_secs(200) {
        let mut at = 0;
        while at < best.before.len() && best.before.len() > 1 && t0.elapsed() < Duration::from_secs(200) {
            let mut b = best.before.clone();
            let e = (at + size).min(b.len());
            b.drain(at..e);
            match go(&b) {
                Some(r) => best = r,
                None => at += size,
            }
        }
        size /= 2;
    }
    Some(best)
}
fn parse_out(s: &str) -> Out {
    let mut o = Out::default();
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("class ") {
            o.class = x.into();
        } else if let Some(x) = l.strip_prefix("message ") {
            o.msg = x.into();
        } else if let Some((x, y)) = l.strip_prefix("after ").and_then(|x| x.split_once(':')) {
            o.seed = x.parse().unwrap_or(0);
            o.before = y.split(',').filter_map(|x| x.parse().ok()).collect();
        } else if let Some(x) = l.strip_prefix("hash ") {
            o.hash = x.into();
        } else if let Some(x) = l.strip_prefix("tape ") {
            o.tape = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if let Some(x) = l.strip_prefix("  ") {
            o.evs.push(x.into());
        }
    }
    o
}
fn same(a: &str, b: &str) -> bool {
    a.split(" #").next() == b.split(" #").next()
}
/// Minimises a failing tape while the same kind of violation keeps happening.
fn shrink(p: &Prop, first: Out, thorough: bool) -> (Out, u64) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if first.class == "hang" { 60 } else { 25 });
    let mut best = first;
    let mut tries = 0u64;
    let mut go = |best: &mut Out, cand: Vec<u32>, tries: &mut u64| -> bool {
        if cand == best.tape {
            return false;
        }
        *tries += 1;
        let o = try_after(p, &cand, thorough, false, "s", false, best.seed, &best.before.clone());
        if same(&o.class, &best.class) && (o.tape.len(), o.tape.iter().map(|&x| x as u64).sum::<u64>()) <= (best.tape.len(), best.tape.iter().map(|&x| x as u64).sum::<u64>()) {
            let changed = o.tape != best.tape;
            *best = o;
            return changed;
        }
        false
    };
    let mut progress = true;
    while progress && t0.elapsed() < limit && tries < 600 {
        progress = false;
        // Shorter first: cut blocks out.
        let mut size = (best.tape.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.tape.len() && t0.elapsed() < limit && tries < 600 {
                let mut c = best.tape.clone();
                let e = (at + size).min(c.len());
                c.drain(at..e);
                if go(&mut best, c, &mut tries) {
                    progress = true;
                } else {
                    at += size;
                }
            }
            if size == 1 || best.tape.len() > 400 && size < best.tape.len() / 64 {
                break;
            }
            size /= 2;
        }
        // Then simpler: blocks of zeros, then single values.
        let mut size = (best.tape.len() / 4).max(1);
        loop {
            let mut at = 0;
            while at < best.tape.len() && t0.elapsed() < limit && tries < 600 {
                let e = (at + size).min(best.tape.len());
                if best.tape[at..e].iter().any(|&x| x != 0) {
                    let mut c = best.tape.clone();
                    c[at..e].iter_mut().for_each(|x| *x = 0);
                    if go(&mut best, c, &mut tries) {
                        progress = true;
                    } else if size == 1 && at < best.tape.len() {
                        let v = best.tape[at];
                        for k in [v / 2, v.saturating_sub(1)] {
                            let mut c = best.tape.clone();
                            c[at] = k;
                            if go(&mut best, c, &mut tries) {
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                at += size;
            }
            if size == 1 || best.tape.len() > 400 && size < best.tape.len() / 64 {
                break;
            }
            size /= 2;
        }
    }
    (best, tries)
}
fn history(o: &Out) -> String {
    if o.before.is_empty() {
        return String::new();
    }
    format!("after {}:{}\n", o.seed, o.before.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn write_replay(p: &Prop, o: &Out, thorough: bool, seed: u64, index: u64, tries: u64) -> String {
    let dir = format!("{}/out/replay", root());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{}/{}-seed{}-case{}.txt", dir, p.id, seed, index);
    let mut s = String::new();
    writeln!(s, "sim-replay 1\nproperty {}\nthorough {}\nseed {} case {} (minimised in {} attempts)", p.id, thorough as u8, seed, index, tries).unwrap();
    writeln!(s, "{}class {}\nmessage {}\nhash {}\ntape {}\ntrace", history(o), o.class, o.msg, o.hash, tape_text(&o.tape)).unwrap();
    for e in &o.evs {
        writeln!(s, "  {}", e).unwrap();
    }
    std::fs::write(&path, s).unwrap();
    path
}
fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("sim: replay file");
    let mut id = String::new();
    let mut thorough = false;
    for l in s.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x.into();
        }
        if let Some(x) = l.strip_prefix("thorough ") {
            thorough = x == "1";
        }
    }
    let want = parse_out(&s);
    let p = prop(&id);
    if let Some(key) = want.class.strip_prefix("directed ") {
        let (c, m) = run_directed(&p, key);
        println!("{}", m);
        if c {
            println!("VIOLATION property={} replay={}", id, file);
            return 1;
        }
        return 0;
    }
    let o = try_after(&p, &want.tape, thorough, true, "r", false, want.seed, &want.before);
    for e in &o.evs {
        println!("  {}", e);
    }
    println!("class {}\nmessage {}", o.class, o.msg);
    if o.class == "ok" {
        println!("the recorded execution no longer violates {}", id);
        return 0;
    }
    println!("{}", if o.hash == want.hash && same(&o.class, &want.class) { "reproduced exactly" } else { "a different execution than the recorded one" });
    println!("VIOLATION property={} replay={}", id, file);
    1
}

// ---------------------------------------------------------------------------------------------------------------
// Directed cases: one fixed scenario each, in a process of its own.
fn directed(id: &str, key: &str) -> i32 {
    let p = prop(id);
    let f = p.directed.iter().find(|x| x.0 == key).expect("sim: no such directed case").1;
    let d = run_case(f, Tape::replay(vec![]), true, false);
    match d.res {
        Ok(()) => 0,
        Err(v) => {
            println!("{}: {}", v.class, one_line(&v.msg));
            if v.class == HARNESS {
                2
            } else {
                1
            }
        }
    }
}
fn run_directed(p: &Prop, key: &str) -> (bool, String) {
    let mut c = Command::new(std::env::current_exe().unwrap()).args(["directed", p.id, key]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    match wait(&mut c, 60) {
        None => (true, "the run does not end".into()),
        Some(s) => {
            let mut t = String::new();
            use std::io::Read;
            c.stdout.take().unwrap().read_to_string(&mut t).unwrap();
            match s.code() {
                Some(0) => (false, "holds".into()),
                Some(1) => (true, t.trim().to_string()),
                Some(2) => panic!("sim: directed case {} {}: {}", p.id, key, t),
                _ => (true, format!("the process died ({})", ended(&s))),
            }
        }
    }
}
fn known() -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let id = it.next().unwrap_or("").to_string();
            let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            v.push((id, key, it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "))
}

fn check(id: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_seed();
    let dir = out_dir(id);
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let (runs, secs) = if thorough {
        (u64::MAX / 4, std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600))
    } else {
        ((p.runs as f64 * scale) as u64, std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(150))
    };
    let mut out: Vec<(String, String)> = vec![];
    let mut harness: Vec<String> = vec![];
    let kn = known();
    let mut nd = 0u64;
    for (key, _) in p.directed.iter() {
        nd += 1;
        let (bad, msg) = run_directed(&p, key);
        if bad {
            if let Some(k) = kn.iter().find(|k| k.0 == id && k.1 == *key) {
                println!("KNOWN-FINDING: property={} {}", id, k.2);
            } else {
                let o = Out { class: format!("directed {}", key), msg, hash: "-".into(), ..Out::default() };
                let path = write_replay(&p, &o, thorough, seed, 0, 0);
                println!("{}: {}", key, o.msg);
                out.push((o.class, path));
            }
        }
    }
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut steps, mut now) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut flaky = 0u64;
    let run0 = Instant::now();
    if out.is_empty() {
        let all = map_shared(&format!("{}/shared{}", dir, nw), true);
        unsafe { (*all).case_index.store(u64::MAX, Ordering::SeqCst) };
        let mut kids = vec![];
        for n in 0..nw {
            for f in ["res", "viol", "hash"] {
                let _ = std::fs::remove_file(format!("{}/{}{}", dir, f, n));
            }
            let sh = map_shared(&format!("{}/shared{}", dir, n), true);
            let args = [id.to_string(), n.to_string(), nw.to_string(), runs.to_string(), secs.to_string(), (thorough as u8).to_string(), "0".to_string()];
            let c = Command::new(std::env::current_exe().unwrap()).arg("worker").args(&args).stdout(Stdio::null()).spawn().unwrap();
            kids.push((n, c, sh, 0u64, Instant::now(), false));
        }
        let mut found: Vec<(u64, Out)> = vec![];
        loop {
            let mut alive = false;
            for k in kids.iter_mut() {
                if k.5 {
                    continue;
                }
                let sh = unsafe { &*k.2 };
                match k.1.try_wait().unwrap() {
                    Some(s) => {
                        k.5 = true;
                        match s.code() {
                            Some(0) => {}
                            Some(1) => {
                                let t = std::fs::read_to_string(format!("{}/viol{}", dir, k.0)).unwrap();
                                let o = parse_out(&t);
                                let i: u64 = t.lines().next().unwrap().trim_start_matches("index ").parse().unwrap();
                                found.push((i, o));
                            }
                            _ => {
                                let (note, t) = shared_note(k.2);
                                let i = sh.case_index.load(Ordering::SeqCst);
                                unsafe { (*all).case_index.fetch_min(i, Ordering::SeqCst) };
                                found.push((i, Out { class: format!("crash: {}", ended(&s)), msg: format!("the process died ({}) {}", ended(&s), note), hash: "-".into(), tape: t, ..Out::default() }));
                            }
                        }
                    }
                    None => {
                        alive = true;
                        let hb = sh.heartbeat.load(Ordering::SeqCst);
                        if hb != k.3 {
                            k.3 = hb;
                            k.4 = Instant::now();
                        } else if k.4.elapsed() > Duration::from_secs(30) {
                            let _ = k.1.kill();
                            let _ = k.1.wait();
                            k.5 = true;
                            let (_, t) = shared_note(k.2);
                            let i = sh.case_index.load(Ordering::SeqCst);
                            unsafe { (*all).case_index.fetch_min(i, Ordering::SeqCst) };
                            found.push((i, Out { class: "hang".into(), msg: "the run does not end".into(), hash: "-".into(), tape: t, ..Out::default() }));
                        }
                    }
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for n in 0..nw {
            if let Ok(t) = std::fs::read_to_string(format!("{}/res{}", dir, n)) {
                for l in t.lines() {
                    let (k, r) = l.split_once(' ').unwrap_or((l, ""));
                    match k {
                        "evals" => evals += r.parse::<u64>().unwrap(),
                        "steps" => steps += r.parse::<u64>().unwrap(),
                        "now" => now += r.parse::<u64>().unwrap(),
                        "flaky" => {
                            flaky += 1;
                            eprintln!("case {} of {} ran differently the second time", r, id);
                        }
                        "count" => {
                            let (v, name) = r.split_once(' ').unwrap();
                            *st.entry(name.to_string()).or_insert(0) += v.parse::<u64>().unwrap();
                        }
                        "sample" => samples.push(r.to_string()),
                        _ => {}
                    }
                }
            }
            if let Ok(b) = std::fs::read(format!("{}/hash{}", dir, n)) {
                for c in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
        found.sort_by_key(|x| x.0);
        for (i, o) in found.iter() {
            if o.class == HARNESS {
                harness.push(format!("case {}: {}", i, o.msg));
            }
        }
        if let Some((i, o)) = found.into_iter().find(|x| x.1.class != HARNESS) {
            // Confirm in a fresh process first; the tape as recorded must fail the same way.
            let again = try_tape(&p, &o.tape, thorough, false, "c");
            let (best, tries) = if same(&again.class, &o.class) {
                shrink(&p, again, thorough)
            } else {
                // It needs something that earlier cases left behind in the process.
                let earlier: Vec<u64> = (0..i).filter(|x| x % nw == i % nw).collect();
                match find_history(&p, &o, thorough, mix(seed, id_hash(p.id)), &earlier) {
                    Some(h) => shrink(&p, h, thorough),
                    None => (o.clone(), 0),
                }
            };
            let fin = try_after(&p, &best.tape, thorough, true, "f", false, best.seed, &best.before);
            let rep = if same(&fin.class, &best.class) { fin } else { best };
            let path = write_replay(&p, &rep, thorough, seed, i, tries);
            println!("{}: {}", rep.class, rep.msg);
            out.push((rep.class, path));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let rate = evals as f64 / run0.elapsed().as_secs_f64().max(0.001) * 3600.0;
    let (faults, other): (Vec<_>, Vec<_>) = st.iter().partition(|(k, _)| !(k.starts_with("runs ") || k.starts_with("~")));
    let kv = |v: &[(&String, &u64)]| v.iter().map(|(k, n)| format!("{}: {}", json(k.trim_start_matches('~')), n)).collect::<Vec<_>>().join(", ");
    let mut e = String::new();
    write!(
        e,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"directed_scenarios\": {},\n  \"simulated_runs_per_hour\": {}, \"seeds\": {},\n  \"simulated_time_ticks\": {}, \"simulated_steps\": {},\n  \"faults_and_conditions_injected\": {{{}}},\n  \"counted\": {{{}}},\n  \"distinctness_measure\": \"hash of the whole event trace of a run (workload, every delivery, fault, switch and outcome)\",\n  \"replays_that_differed\": {},\n  \"real_code\": {},\n  \"simulated_or_stubbed\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json(id),
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        evals,
        hashes.len(),
        json(p.rule),
        jlist(&samples),
        nd,
        rate as u64,
        evals,
        now,
        steps,
        kv(&faults),
        kv(&other),
        flaky,
        jlist(&p.real.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jlist(&p.stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jlist(&p.assume.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall,
        out.len()
    )
    .unwrap();
    std::fs::create_dir_all(format!("{}/evidence", root())).unwrap();
    std::fs::write(format!("{}/evidence/{}.json", root(), id), e).unwrap();
    println!("{}: {} runs, {} distinct, {} steps, {:.1} s", id, evals, hashes.len(), steps, wall);
    if !out.is_empty() {
        for (_, path) in &out {
            println!("VIOLATION property={} replay={}", id, path);
        }
        return 1;
    }
    if !harness.is_empty() {
        for h in &harness {
            eprintln!("harness error: {}", h);
        }
        return 2;
    }
    if flaky > 0 && std::env::var("SIM_STRICT").is_ok() {
        return 2;
    }
    0
}
