//! Properties of files: C07, C08, C09. The disk is simulated below the C library.
use crate::api::*;
use crate::base::*;
use crate::custom::*;
use crate::model::*;
use crate::os::*;
use crate::props::*;
use crate::types::*;

fn bytes(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    Rng::new(below(1 << 24) as u64).fill(&mut b);
    b
}
/// Sizes around the buffer between the encoder and the file, and around pages and transfers.
const EDGES: &[u32] = &[0, 1, 100, 4087, 4091, 4092, 4093, 8180, 8187, 8188, 8189, 8192, 8193, 12000, 16380, 16384, 20000, 65531, 65532, 65540];
fn file_value(e: &'static Entry, big: bool) -> (Val, Vec<u8>) {
    sample(e, big, chance(1, 3))
}
/// A type whose encodings have one of those sizes.
fn edge_value() -> (&'static Entry, Val) {
    let n = *w().tape.pick(EDGES) as usize;
    let (name, v) = match below(4) {
        0 => ("Vec<u8>", Val::B(bytes(n))),
        1 => ("String", Val::B(bytes(n).iter().map(|b| 32 + b % 90).collect())),
        2 => ("Vec<u64>", Val::L((0..n / 8).map(|i| Val::U(mix(n as u64, i as u64) as u128)).collect())),
        // Many small writes.
        _ => ("Vec<(u8,u32)>", Val::L((0..(n / 5).min(2000)).map(|i| Val::L(vec![Val::U(i as u128 & 255), Val::U(i as u128 * 7)])).collect())),
    };
    (by_name(name), v)
}
fn disk_errno(op: Op) -> i32 {
    let v: &[i32] = match op {
        Op::Open => &[EACCES, EMFILE, ENOENT, EIO, ENOSPC, ENOMEM, EISDIR],
        Op::Write => &[ENOSPC, EIO, EDQUOT, EBADF, EAGAIN],
        Op::Stat => &[EIO, ENOMEM, EACCES],
        Op::Mmap => &[ENOMEM, EAGAIN, ENODEV, EACCES, EIO],
        Op::Madvise => &[EINVAL, ENOMEM, EIO],
        _ => &[EIO, ENOSPC],
    };
    *w().tape.pick(v)
}
fn plan(ops: &[Op], calls: u32) {
    let op = *w().tape.pick(ops);
    let f = Fault { op, at: below(calls) as u64, errno: disk_errno(op), sticky: chance(1, 2) };
    note(|| format!("planned fault {:?}", f));
    w().disk.faults.push(f);
}
fn os_of(f: &Fail) -> Option<i32> {
    match f {
        Fail::Err { io: Some(io), .. } => io.os,
        _ => None,
    }
}
fn plain_fail(f: &Fail, name: &str) -> Res {
    match f {
        Fail::Panic(p) => viol("panic", format!("{}: {}", name, p)),
        Fail::Planned(p) => viol(format!("stuck: {}", p), name),
        _ => Ok(()),
    }
}

// --------------------------------------------------------------------------------------------------------------- C07
/// What ends up in the file is what one pass over the value wrote, whatever the value announced before.
fn c07_shifty() -> Res {
    let big = chance(1, 2);
    let (x, all) = crate::props_scripts::shifty(big);
    let path = spot("out");
    if chance(1, 2) {
        w().disk.put("out", bytes(*w().tape.pick(&[0usize, 3, 9000, 30_000])));
    }
    w().disk.short = chance(1, 2);
    w().disk.intr = *w().tape.pick(&[0u32, 3, 9]);
    let r = x.to_file(SimCtx::new(big), &path);
    w().disk.short = false;
    w().disk.intr = 0;
    match r {
        Ok(()) => {
            let got = w().disk.get(&path).unwrap_or(b"no file").to_vec();
            if !all.contains(&got) {
                return viol("success with a different content", format!("the file holds {} bytes, the passes wrote {:?}: {}", got.len(), all.iter().map(|a| a.len()).collect::<Vec<_>>(), hex(&got)));
            }
            Ok(())
        }
        Err(f) => plain_fail(&f, "type that changes"),
    }
}
pub fn c07() -> Res {
    if chance(1, 10) {
        return c07_shifty();
    }
    let (e, v, big, want) = if chance(1, 3) {
        let (e, v) = edge_value();
        let big = chance(1, 2);
        let d = encode(&e.s, &v, big);
        ev(e.name, d.len() as u64, 0);
        note(|| format!("type {} value {} encoding of {} bytes", e.name, v.short(), d.len()));
        (e, v, big, d)
    } else {
        let e = pick(|_| true);
        let big = draw_big(e);
        let (v, d) = file_value(e, big);
        (e, v, big, d)
    };
    let path = spot("out");
    let near = [("out.tmp", bytes(9)), ("ou", bytes(7)), ("out2", bytes(5))];
    for (n, b) in &near {
        w().disk.put(n, b.clone());
    }
    for round in 0..range(1, 2) {
        w().disk.reset_calls();
        w().disk.space = None;
        if round == 0 || chance(1, 2) {
            match below(5) {
                0 => {
                    w().disk.nodes.remove(&path);
                }
                1 => {
                    w().disk.put("out", vec![]);
                }
                2 => {
                    let n = below(want.len() as u32 + 1) as usize;
                    w().disk.put("out", bytes(n));
                }
                3 => {
                    let n = want.len() + range(1, 9000) as usize;
                    w().disk.put("out", bytes(n));
                }
                _ => {
                    w().disk.put("out", bytes(want.len()));
                }
            }
        }
        match below(6) {
            0 => {}
            1 => plan(&[Op::Open], 1),
            2 | 3 => {
                let k = if chance(1, 2) { 2 } else { 2 + want.len() as u32 / 4000 };
                plan(&[Op::Write], k)
            }
            4 => {
                let s = match below(3) {
                    0 => below(want.len() as u32 + 2),
                    1 => (want.len() as u32).saturating_sub(1),
                    _ => want.len() as u32,
                };
                note(|| format!("space for {} bytes", s));
                w().disk.space = Some(s as usize);
            }
            _ => plan(&[Op::Close, Op::Sync, Op::Stat], 1),
        }
        w().disk.short = chance(1, 2);
        w().disk.intr = *w().tape.pick(&[0u32, 0, 3, 9]);
        let mut r = Ok(());
        (e.obj.unwrap())(&v, &mut |o| r = o.to_file(SimCtx::new(big), &path));
        w().disk.short = false;
        w().disk.intr = 0;
        w().disk.space = None;
        ev("written", w().disk.calls_of(Op::Write), r.is_ok() as u64);
        let injected: Vec<(Op, i32)> = w().disk.injected.clone();
        let hard: Vec<i32> = injected.iter().filter(|x| matches!(x.0, Op::Open | Op::Write)).map(|x| x.1).collect();
        let what = format!("{} of {} bytes, faults that happened: {:?}", e.name, want.len(), injected);
        match r {
            Ok(()) => {
                if !hard.is_empty() {
                    return viol("file failure swallowed", what);
                }
                let got = w().disk.get(&path).map(|b| b.to_vec());
                let got = match got {
                    Some(g) => g,
                    None => return viol("success without a file", what),
                };
                if got.len() != want.len() {
                    return viol("success with a different content", format!("{}: the file holds {} bytes", what, got.len()));
                }
                if check_bytes(e, &v, big, &got).is_err() {
                    return viol("success with a different content", format!("{}: the file holds {}", what, hex(&got)));
                }
            }
            Err(f) => {
                plain_fail(&f, &what)?;
                if injected.is_empty() {
                    return viol("fails without cause", format!("{}: {:?}", what, f));
                }
                let os = os_of(&f);
                if !injected.iter().any(|x| Some(x.1) == os) {
                    return viol("file failure not passed on unchanged", format!("{}: {:?}", what, f));
                }
            }
        }
        for (n, b) in &near {
            if w().disk.get(&format!("{}{}", ROOT, n)) != Some(&b[..]) {
                return viol("another file was changed", format!("{}: {}", what, n));
            }
        }
        w().disk.faults.clear();
    }
    Ok(())
}
fn d07_small() -> Res {
    // A value that fits into any buffer: the only write happens when that is flushed.
    let e = by_name("i64");
    for errno in [ENOSPC, EIO] {
        w().disk.reset_calls();
        w().disk.faults.push(Fault { op: Op::Write, at: 0, errno, sticky: true });
        let mut r = Ok(());
        (e.obj.unwrap())(&Val::I(5), &mut |o| r = o.to_file(SimCtx::new(false), "/simfs/out"));
        match r {
            Ok(()) => return viol("file failure swallowed", "eight bytes, error at the first write"),
            Err(f) if os_of(&f) == Some(errno) => {}
            Err(f) => return viol("file failure not passed on unchanged", format!("{:?}", f)),
        }
    }
    Ok(())
}
pub const D07: &[(&str, fn() -> Res)] = &[("flush-error-of-a-small-value", d07_small)];

// --------------------------------------------------------------------------------------------------------------- C08
/// What a writer that died left behind.
fn crashed(e: &'static Entry, v: &Val, big: bool, old: Vec<u8>) -> Vec<u8> {
    let path = w().disk.put("in", old.clone());
    w().disk.history.clear();
    w().disk.keep_history = true;
    w().disk.short = chance(1, 2);
    let mut r = Ok(());
    (e.obj.unwrap())(v, &mut |o| r = o.to_file(SimCtx::new(big), &path));
    w().disk.short = false;
    w().disk.keep_history = false;
    let mut states: Vec<Vec<u8>> = vec![old.clone()];
    states.extend(w().disk.history.iter().map(|h| h.get(&path).map(|n| n.data.clone()).unwrap_or_default()));
    w().disk.history.clear();
    let k = below(states.len() as u32) as usize;
    let mut d = states[k].clone();
    fired("writer crashed");
    ev("crash point", k as u64, states.len() as u64);
    if chance(1, 2) && !d.is_empty() {
        // Only some of the blocks made it to the disk.
        let b = *w().tape.pick(&[64usize, 512, 4096]);
        for (i, c) in d.chunks_mut(b).enumerate() {
            if chance(1, 3) {
                let o = old.get(i * b..).unwrap_or(&[]);
                for (j, x) in c.iter_mut().enumerate() {
                    *x = o.get(j).copied().unwrap_or(0);
                }
                fired("lost block");
            }
        }
    }
    d
}
fn as_from_memory(e: &Entry, plain: &DecOut, got: &DecOut) -> Res {
    let same = match (&plain.r, &got.r) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.is_panic() == b.is_panic() && a.is_end_of_input() == b.is_end_of_input(),
        _ => false,
    };
    if !same {
        return viol("the file decodes differently from its bytes", format!("{}: from memory {}, from the file {}", e.name, plain.short(), got.short()));
    }
    Ok(())
}
pub fn c08() -> Res {
    let (e, big, v, whole) = if chance(1, 5) {
        let (e, v) = edge_value();
        let big = chance(1, 2);
        let d = encode(&e.s, &v, big);
        ev(e.name, d.len() as u64, 0);
        (e, big, v, d)
    } else {
        let e = pick(|e| !e.borrowed && !e.t.zero_elem);
        let big = draw_big(e);
        let (v, d) = file_value(e, big);
        (e, big, v, d)
    };
    let mut data = match below(8) {
        0 | 1 => whole.clone(),
        2 => {
            let mut d = whole.clone();
            mutate(&mut d);
            d
        }
        3 | 4 => {
            let old = match below(3) {
                0 => vec![],
                1 => encode(&e.s, &e.gen(chance(1, 3)), big),
                _ => bytes(below(9000) as usize),
            };
            crashed(e, &v, big, old)
        }
        5 => {
            let mut d = whole.clone();
            let n = *w().tape.pick(&[1u32, 30, 4096, 5000]);
            d.extend(bytes(below(n) as usize + 1));
            fired("file longer than the value");
            d
        }
        6 => {
            let mut d = whole.clone();
            d.truncate(below(whole.len() as u32 + 1) as usize);
            fired("truncation");
            d
        }
        _ => {
            fired("empty file");
            vec![]
        }
    };
    // Lengths that are whole pages leave nothing mapped behind them.
    if chance(1, 6) {
        let n = (data.len() + 4095) / 4096 * 4096;
        data.resize(n, 0x5A);
    }
    if e.t.recursive {
        data.truncate(3000);
    }
    ev("content", data.len() as u64, hash_bytes(&data));
    note(|| format!("big-endian={} content {}", big, hex(&data)));
    // What the same bytes give when they come from memory.
    let plain = (e.dec)(big, Way::Copy(&data));
    for _ in 0..range(1, 2) {
        let path = w().disk.put("in", data.clone());
        w().disk.reset_calls();
        w().disk.intr = *w().tape.pick(&[0u32, 0, 4]);
        w().disk.short = chance(1, 2);
        let mut missing = None;
        match below(8) {
            0..=3 => {}
            4 => plan(&[Op::Open], 1),
            5 => plan(&[Op::Stat, Op::Mmap, Op::Read], 2),
            6 => plan(&[Op::Madvise, Op::Close, Op::Munmap], 3),
            _ => {
                if chance(1, 2) {
                    w().disk.nodes.remove(&path);
                    missing = Some(ENOENT);
                    fired("no such file");
                } else {
                    w().disk.nodes.get_mut(&path).unwrap().dir = true;
                    missing = Some(0);
                    fired("a directory");
                }
            }
        }
        let o = (e.dec)(big, Way::File(&path));
        w().disk.intr = 0;
        w().disk.short = false;
        let injected = w().disk.injected.clone();
        ev("read", o.r.is_ok() as u64, injected.len() as u64);
        let what = format!("{}, {} bytes, faults that happened: {:?}", e.name, data.len(), injected);
        if let Err(f) = &o.r {
            plain_fail(f, &what)?;
        }
        if let Some(m) = missing {
            match &o.r {
                Ok(g) => return viol("a value from no file", format!("{}: {}", what, g.short())),
                Err(f) if m != 0 && os_of(f) != Some(m) && injected.is_empty() => return viol("file failure not passed on unchanged", format!("{}: {:?}", what, f)),
                Err(f) if os_of(f).is_none() => return viol("file failure not passed on unchanged", format!("{}: {:?}", what, f)),
                _ => {}
            }
        } else if injected.is_empty() {
            as_from_memory(e, &plain, &o)?;
        } else {
            let loading = injected.iter().any(|i| matches!(i.0, Op::Open | Op::Stat | Op::Mmap | Op::Read));
            match &o.r {
                Ok(_) => {
                    // Another way of loading the file may have been found.
                    let other = w().disk.calls_of(Op::Read) > 0 && !injected.iter().any(|i| matches!(i.0, Op::Open | Op::Read));
                    if loading && !other {
                        return viol("file failure swallowed", what);
                    }
                    as_from_memory(e, &plain, &o)?;
                }
                Err(f) => {
                    let os = os_of(f);
                    let named = injected.iter().any(|i| Some(i.1) == os);
                    if !named && (loading || plain.r.is_ok()) {
                        return viol("file failure not passed on unchanged", format!("{}: {:?}", what, f));
                    }
                }
            }
        }
        if missing.is_none() && w().disk.get(&path) != Some(&data[..]) {
            return viol("reading changed the file", what);
        }
        w().disk.faults.clear();
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C09
/// While it lives, every unmapping is the library's.
struct Owned;
impl Owned {
    fn new() -> Self {
        own_mappings(true);
        Owned
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        own_mappings(false);
    }
}
fn audit(what: &str) -> Res {
    if let Err(s) = w().disk.audit() {
        return viol("resource ledger", format!("{}: {}", what, s));
    }
    Ok(())
}
pub fn c09() -> Res {
    for i in 0..range(1, 3) {
        w().disk.reset_calls();
        w().disk.space = None;
        match below(3) {
            0 => {}
            1 => plan(&[Op::Open, Op::Stat, Op::Mmap, Op::Madvise, Op::Read, Op::Write, Op::Close, Op::Munmap], 2),
            _ => {
                plan(&[Op::Open, Op::Stat, Op::Mmap, Op::Madvise, Op::Write], 3);
                plan(&[Op::Close, Op::Munmap, Op::Madvise, Op::Write], 3);
            }
        }
        w().disk.short = chance(1, 3);
        w().disk.intr = *w().tape.pick(&[0u32, 0, 5]);
        let what;
        let path = format!("{}f{}", ROOT, below(2));
        let name = path[ROOT.len()..].to_string();
        let outcome: Result<(), Fail> = match below(6) {
            0 => {
                // A read, of whatever is there or fresh bytes.
                let e = pick(|e| !e.borrowed && !e.t.zero_elem);
                let big = draw_big(e);
                let mut d = sample(e, big, chance(1, 4)).1;
                if chance(1, 2) {
                    mutate(&mut d);
                }
                if e.t.recursive {
                    d.truncate(3000);
                }
                if chance(3, 4) || w().disk.get(&path).is_none() {
                    w().disk.put(&name, d);
                }
                what = format!("read of {}", e.name);
                let _o = Owned::new();
                (e.dec)(big, Way::File(&path)).r.map(|_| ())
            }
            1 => {
                let (e, v) = edge_value();
                let d = encode(&e.s, &v, false);
                w().disk.put(&name, d);
                what = format!("read of {}", e.name);
                let _o = Owned::new();
                (e.dec)(false, Way::File(&path)).r.map(|_| ())
            }
            2 => {
                // User code that fails or panics in the middle of a read.
                let t = w().tape.pick(watched());
                ledger_reset();
                let v = Gen { budget: 30, depth: 0, big: false }.val(&mut w().tape, &t.s);
                let mut d = encode(&t.s, &v, false);
                if !d.is_empty() {
                    let k = below(d.len() as u32) as usize;
                    d[k] = *w().tape.pick(&[PANIC_BYTE, FAIL_BYTE, 1]);
                }
                w().disk.put(&name, d);
                what = format!("read of {}", t.name);
                let _o = Owned::new();
                (t.dec)(false, Way::File(&path)).r.map(|_| ())
            }
            3 => {
                // User code that fails or panics in the middle of a write.
                let n = *w().tape.pick(&[0usize, 10, 8192, 20000]);
                let ops = vec![WOp::Bytes(bytes(n)), if chance(1, 2) { WOp::Panic } else { WOp::Fail }];
                let x = WRun::new(vec![ops], None);
                what = "write of a failing type".into();
                fired("user code fails or panics while encoding");
                let _o = Owned::new();
                x.to_file(SimCtx::new(false), &path)
            }
            4 => {
                let (e, v) = edge_value();
                what = format!("write of {}", e.name);
                let _o = Owned::new();
                let mut r = Ok(());
                (e.obj.unwrap())(&v, &mut |o| r = o.to_file(SimCtx::new(false), &path));
                r
            }
            _ => {
                let e = pick(|_| true);
                let big = draw_big(e);
                let v = e.gen(false);
                what = format!("write of {}", e.name);
                let _o = Owned::new();
                let mut r = Ok(());
                (e.obj.unwrap())(&v, &mut |o| r = o.to_file(SimCtx::new(big), &path));
                r
            }
        };
        w().disk.short = false;
        w().disk.intr = 0;
        let tag = match &outcome {
            Ok(()) => 0,
            Err(Fail::Planned(_)) => 2,
            Err(_) => 1,
        };
        ev("outcome", tag, i as u64);
        note(|| format!("{}: {:?}", what, outcome));
        audit(&format!("operation {} ({}, faults that happened {:?}, outcome {:?})", i, what, w().disk.injected, outcome.as_ref().err().map(|_| tag)))?;
        w().disk.faults.clear();
    }
    Ok(())
}
