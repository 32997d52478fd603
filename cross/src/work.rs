//! Runs on one machine: seeded cases, or one recorded tape.
use crate::base::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const HARNESS: &str = "harness";
pub struct Done {
    pub res: Res,
    pub rec: Vec<u32>,
    pub hash: u64,
    pub steps: u64,
    pub st: Stats,
    pub evs: Vec<String>,
}
/// What is run: the checks of the other properties which need nothing of the operating system.
fn case() -> Res {
    use crate::{props as p, props_scripts as s};
    match below(24) {
        0 => p::c01(),
        1 => p::c02(),
        2 => p::c04(),
        3 => p::c05(),
        4 | 5 => p::c06(),
        6 | 7 => p::c11(),
        8..=10 => s::c14(),
        11..=13 => s::c15(),
        14 => s::c16(),
        15 => p::c10(),
        16 | 17 => wide(),
        _ => exchange(),
    }
}
/// A length, tag or size is off by a multiple of 2^32: a machine which cannot hold it must not take it for the true one.
fn wide() -> Res {
    use crate::api::*;
    use crate::model::*;
    use crate::props::*;
    let e = pick(|e| e.t.wide && !e.t.zero_elem);
    let big = draw_big(e);
    let v = e.gen(false);
    let mut c = Enc::new(big);
    c.val(&e.s, &v);
    if c.lens == 0 {
        return Ok(());
    }
    let at = below(c.lens as u32) as usize;
    let mut c = Enc::new(big);
    c.lie = Some((at, Lie::Off((range(1, 3) as u64) << *w().tape.pick(&[32u32, 32, 33, 40, 48, 56, 62]))));
    c.val(&e.s, &v);
    fired("wide lie");
    let d = c.out;
    note(|| format!("{} big-endian={} input {}", e.name, big, hex(&d)));
    let x = expect(e, &d, big);
    for _ in 0..3 {
        let how = *w().tape.pick(hows(e));
        let (o, _) = run_how(e, big, &d, how);
        compare(e.name, how, &x, &o, false)?;
    }
    Ok(())
}
/// A value is encoded in every way, and decoded in every way from its documented encoding.
fn exchange() -> Res {
    use crate::api::*;
    use crate::props::*;
    let e = pick(|_| true);
    let big = draw_big(e);
    let (v, d) = sample(e, big, chance(1, 6));
    let x = expect(e, &d, big);
    if x.want != Want::Ok(v.clone()) {
        return Ok(());
    }
    for _ in 0..3 {
        let how = *w().tape.pick(hows(e));
        let (o, _) = run_how(e, big, &d, how);
        compare(e.name, how, &x, &o, false)?;
    }
    let Some(obj) = e.obj else { return Ok(()) };
    let mut r = Ok(());
    obj(&v, &mut |o| {
        r = lib_bytes(e, &v, big, o).and_then(|b| check_bytes(e, &v, big, &b));
    });
    r
}
pub fn run(tape: Tape, keep: bool) -> Done {
    let mut world = Box::new(World { tape, tr: Trace::new(keep), st: Stats::default(), disk: Default::default(), now: 0, panic_text: None, thorough: false, control: false, after: None, parts: None });
    set_world(&mut *world);
    let r = catch_unwind(case);
    crate::types::end_case();
    crate::props_user::end_case();
    let res = match r {
        Ok(r) => r,
        Err(p) => {
            let mut s = w().panic_text.take().unwrap_or_default();
            if s.is_empty() {
                s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "?".into());
            }
            viol(if s.contains("sim:") { HARNESS } else { "panic" }, s)
        }
    };
    set_world(std::ptr::null_mut());
    let wd = *world;
    Done { res, rec: wd.tape.rec, hash: wd.tr.hash, steps: wd.tr.steps, st: wd.st, evs: wd.tr.evs }
}
const OWN: &[&str] = &["base.rs", "alloc.rs", "stream.rs", "work.rs", "model.rs", "main.rs"];
fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "panic".into());
        let name = loc.0.rsplit('/').next().unwrap_or("");
        let own = (OWN.contains(&name) || name.starts_with("props")) && (loc.0.starts_with("src/") || loc.0.contains("sim/src"));
        let s = format!("{}{} at {}:{}", if own && !msg.contains("sim:") { "sim: " } else { "" }, msg, loc.0, loc.1);
        if has_world() {
            w().panic_text = Some(s);
        } else {
            eprintln!("{}", s);
        }
    }));
}
fn deep<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    if cfg!(miri) {
        return f();
    }
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}
pub fn text(t: &[u32]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
fn line(s: &str) -> String {
    s.replace(['\n', '\r'], " / ")
}
fn show(name: &str, d: &Done) {
    let (c, m) = match &d.res {
        Ok(()) => ("ok".to_string(), String::new()),
        Err(v) => (v.class.clone(), v.msg.clone()),
    };
    println!("{}\t{}\t{}\t{:x}\t{}", name, line(&c), line(&m), d.hash, text(&d.rec));
}
/// `work SEED FIRST STEP SECS MOST`
pub fn work(a: &[String]) -> i32 {
    let n: Vec<u64> = a.iter().map(|x| x.parse().expect("sim: number")).collect();
    let (seed, first, step, secs, most) = (n[0], n[1], n[2], n[3], n[4]);
    hook();
    deep(move || {
        let t0 = std::time::Instant::now();
        let mut st = Stats::default();
        let (mut i, mut runs, mut steps) = (first, 0u64, 0u64);
        let mut distinct = std::collections::BTreeSet::new();
        while runs < most && t0.elapsed().as_secs() < secs {
            // Should this run end the process, the last line says which it was.
            println!("at {}", i);
            let t1 = std::time::Instant::now();
            let d = run(Tape::generate(mix(seed, i)), false);
            if std::env::var("CROSS_TIME").is_ok() { println!("time {} {}", d.rec[0], t1.elapsed().as_millis()); }
            runs += 1;
            steps += d.steps;
            distinct.insert(d.hash);
            for (k, v) in &d.st.counts {
                st.add(k, *v);
            }
            if d.res.is_err() {
                show(&format!("bad {}", i), &d);
                let _ = std::io::stdout().flush();
            }
            i += step;
        }
        for (k, v) in &st.counts {
            println!("count\t{}\t{}", v, k);
        }
        println!("done\t{}\t{}\t{}\t{}", runs, steps, distinct.len(), t0.elapsed().as_millis());
    });
    0
}
/// `try seed SEED INDEX`, or `try FILE MS [keep]`: each line of the file is a tape. The first which fails like the class in
/// the first line of the file is shown; with `keep` all of them, with their traces.
pub fn tried(a: &[String]) -> i32 {
    hook();
    let a = a.to_vec();
    deep(move || {
        if a[0] == "seed" {
            let d = run(Tape::generate(mix(a[1].parse().unwrap(), a[2].parse().unwrap())), false);
            show("tried", &d);
            return;
        }
        let s = std::fs::read_to_string(&a[0]).expect("sim: tape file");
        let keep = a.get(1).map(|x| x == "keep").unwrap_or(false);
        for l in s.lines() {
            println!("next");
            let d = run(Tape::replay(l.split_whitespace().filter_map(|x| x.parse().ok()).collect()), keep);
            show("tried", &d);
            for e in &d.evs {
                println!("  {}", line(e));
            }
        }
    });
    0
}
