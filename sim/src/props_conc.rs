//! Properties with several parties or threads: C03, C17, C18, C19.
use crate::api::*;
use crate::base::*;
use crate::custom::*;
use crate::model::*;
use crate::os::*;
use crate::props::*;
use crate::sched::{self, PipeCfg, RxEnd, TxEnd};
use crate::stream::*;
use crate::types::*;
use std::io::{self, Read, Write};
use std::sync::atomic::*;
use std::sync::Mutex;

// --------------------------------------------------------------------------------------------------------------- C03
pub fn c03() -> Res {
    if chance(1, 2) {
        c03_block()
    } else {
        c03_talk()
    }
}
fn c03_block() -> Res {
    let e = pick(|e| !e.borrowed);
    let big = draw_big(e);
    let (v, mut data) = sample(e, big, chance(1, 3));
    let v0 = v.clone();
    data.extend(vec![0x55; below(20) as usize]);
    let x = expect(e, &data, big);
    if x.saw_eof || x.want != Want::Ok(v) {
        // The type asks where the input ends.
        return Ok(());
    }
    if w().control {
        return sound(e, big, &v0, &data[..x.pos]);
    }
    for how in [How::U, How::B] {
        let mut s = SimStream::draw(&data);
        s.block_at = Some(x.extent);
        note(|| format!("{:?}: {} blocks at {}", how, s.describe(), x.extent));
        let o = if how == How::U { (e.dec)(big, Way::StreamU(&mut s)) } else { (e.dec)(big, Way::StreamB(&mut s)) };
        ev("done", s.pos as u64, s.would_block as u64);
        if s.would_block {
            return viol("waits for more than the value", format!("{} by {:?}: a read was issued after all {} bytes had arrived", e.name, how, x.extent));
        }
        compare(e.name, how, &x, &o, false)?;
    }
    // An encode leaves nothing behind.
    let mut res = Ok(());
    let v = if let Want::Ok(v) = &x.want { v.clone() } else { unreachable!() };
    (e.obj.unwrap())(&v, &mut |o| {
        let mut s = SimSink::draw(x.extent);
        if let Err(f) = o.to_stream(SimCtx::new(big), &mut s) {
            res = viol("encoding fails", format!("{}: {:?}", e.name, f));
        } else if s.out.len() != x.pos {
            res = viol("an encode that returned left bytes behind", format!("{}: {} of {} bytes delivered", e.name, s.out.len(), x.pos));
        }
    });
    res
}
/// The value makes it through memory in both directions.
fn sound(e: &'static Entry, big: bool, v: &Val, bytes: &[u8]) -> Res {
    let mut r = Ok(());
    (e.obj.unwrap())(v, &mut |o| r = lib_bytes(e, v, big, o).map(|_| ()));
    r?;
    let x = Expect { want: Want::Ok(v.clone()), pos: bytes.len(), extent: 0, saw_eof: false };
    compare(e.name, How::Copy, &x, &(e.dec)(big, Way::CopyLen(bytes)), false)
}
struct Msg {
    e: &'static Entry,
    big: bool,
    v: Val,
    len: usize,
    buffered: bool,
}
fn message(lockstep: bool) -> Msg {
    loop {
        let e = pick(|e| !e.borrowed && !e.t.eof_sensitive);
        let big = draw_big(e);
        let (v, d) = sample(e, big, chance(1, 10));
        let x = expect(e, &d, big);
        if x.extent > x.pos {
            continue;
        }
        return Msg { e, big, v, len: d.len(), buffered: lockstep && chance(1, 2) };
    }
}
fn send(m: &Msg, tx: &mut dyn Write) -> Result<(), Fail> {
    let mut r = Ok(());
    (m.e.obj.unwrap())(&m.v, &mut |o| r = o.to_stream(SimCtx::new(m.big), tx));
    r
}
fn recv(m: &Msg, rx: &mut dyn Read) -> DecOut {
    if m.buffered {
        (m.e.dec)(m.big, Way::StreamB(rx))
    } else {
        (m.e.dec)(m.big, Way::StreamU(rx))
    }
}
/// Receives one message and checks it; `Err` also when the peer is gone.
fn got(m: &Msg, rx: &mut dyn Read, bad: &mut Option<Viol>, peer_may_die: bool) -> bool {
    let o = recv(m, rx);
    match &o.r {
        Ok(v) if *v == m.v => true,
        Ok(_) => {
            *bad = Some(Viol { class: "wrong value".into(), msg: format!("{}: sent {} received {}", m.e.name, m.v.short(), o.short()) });
            false
        }
        Err(f) => {
            if !peer_may_die || f.is_panic() {
                *bad = Some(Viol { class: "receiving fails".into(), msg: format!("{}: {:?}", m.e.name, f) });
            } else if !f.is_end_of_input() {
                *bad = Some(Viol { class: "peer death reported as something else".into(), msg: format!("{}: {:?}", m.e.name, f) });
            }
            false
        }
    }
}
fn pipe() -> PipeCfg {
    PipeCfg {
        cap: *w().tape.pick(&[1usize, 2, 3, 7, 16, 64, 300, 8192, 100_000]),
        latency: *w().tape.pick(&[0u32, 0, 3, 50]),
        chunk: *w().tape.pick(&[0u32, 0, 1, 3, 20, 700]),
        intr: *w().tape.pick(&[0u32, 0, 2, 8]),
    }
}
fn c03_talk() -> Res {
    let pairs = range(1, 2) as usize;
    let mut pipes = vec![];
    let mut plans = vec![];
    let mut left = 20_000usize;
    for _ in 0..pairs {
        let one_way = chance(1, 3);
        let rounds = range(1, 4);
        let mut reqs = vec![];
        let mut resps = vec![];
        for _ in 0..rounds {
            let m = message(!one_way);
            if m.len > left {
                continue;
            }
            left -= m.len;
            reqs.push(m);
            if !one_way {
                resps.push(message(true));
            }
        }
        let total: usize = reqs.iter().map(|m| m.len).sum();
        let back: usize = resps.iter().map(|m| m.len).sum();
        let crash = match below(5) {
            0 => Some((0, below(total as u32 + 1) as u64)),
            1 if !one_way => Some((1, below(back as u32 + 1) as u64)),
            _ => None,
        };
        pipes.push(pipe());
        pipes.push(pipe());
        plans.push((one_way, reqs, resps, crash));
    }
    if w().control {
        for (_, reqs, resps, _) in &plans {
            for m in reqs.iter().chain(resps) {
                sound(m.e, m.big, &m.v, &encode(&m.e.s, &m.v, m.big))?;
            }
        }
        return Ok(());
    }
    let mut bads: Vec<Option<Viol>> = vec![None; pairs * 2];
    let rep = {
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let mut it = bads.iter_mut();
        for (k, (one_way, reqs, resps, crash)) in plans.iter().enumerate() {
            let (b1, b2) = (it.next().unwrap(), it.next().unwrap());
            let may = crash.is_some();
            let at = |side: i32| crash.and_then(|c| if c.0 == side { Some(c.1) } else { None });
            let (c0, c1) = (at(0), at(1));
            let one_way = *one_way;
            tasks.push(Box::new(move || {
                let mut tx = TxEnd { p: 2 * k, crash_at: c0 };
                let mut rx = RxEnd(2 * k + 1);
                for (i, m) in reqs.iter().enumerate() {
                    match send(m, &mut tx) {
                        Ok(()) => {}
                        Err(Fail::Planned(_)) => return,
                        Err(f) => {
                            if !may || f.is_panic() {
                                *b1 = Some(Viol { class: "sending fails".into(), msg: format!("{}: {:?}", m.e.name, f) });
                            }
                            return;
                        }
                    }
                    if !one_way && !got(&resps[i], &mut rx, b1, may) {
                        return;
                    }
                }
            }));
            tasks.push(Box::new(move || {
                let mut rx = RxEnd(2 * k);
                let mut tx = TxEnd { p: 2 * k + 1, crash_at: c1 };
                for (i, m) in reqs.iter().enumerate() {
                    if !got(m, &mut rx, b2, may) {
                        return;
                    }
                    if !one_way {
                        match send(&resps[i], &mut tx) {
                            Ok(()) => {}
                            Err(Fail::Planned(_)) => return,
                            Err(f) => {
                                if !may || f.is_panic() {
                                    *b2 = Some(Viol { class: "sending fails".into(), msg: format!("{}: {:?}", resps[i].e.name, f) });
                                }
                                return;
                            }
                        }
                    }
                }
            }));
        }
        sched::run(pipes, tasks)
    };
    if let Some(v) = bads.into_iter().flatten().next() {
        return Err(v);
    }
    if let Some(s) = rep.stall.first() {
        return viol("stall", format!("the conversation makes no progress: {}", rep.stall.join(", ")));
    }
    if let Some((i, f)) = rep.panics.first() {
        return viol("panic", format!("task {}: {:?}", i, f));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C17
/// A stream that performs another encode or decode of its own whenever it is asked for bytes.
struct Nesting<'a, S> {
    inner: S,
    job: &'a Job,
    bad: &'a Mutex<Option<Viol>>,
    every: u32,
    n: u32,
}
impl<'a, S> Nesting<'a, S> {
    fn nest(&mut self) {
        self.n += 1;
        let most = (200_000 / self.job.cost()).clamp(1, 60);
        if self.n % self.every == 0 && self.n / self.every <= most as u32 {
            fired("operation nested inside a stream");
            if let Err(v) = self.job.run(None, false) {
                let mut b = self.bad.lock().unwrap();
                if b.is_none() {
                    *b = Some(Viol { class: v.class, msg: format!("nested: {}", v.msg) });
                }
            }
        }
    }
}
impl<'a, S: Read> Read for Nesting<'a, S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.nest();
        self.inner.read(b)
    }
}
impl<'a, S: Write> Write for Nesting<'a, S> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.nest();
        self.inner.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}
/// One operation whose result is known beforehand.
struct Job {
    e: &'static Entry,
    big: bool,
    v: Val,
    bytes: Vec<u8>,
    kind: u32,
    chunk: usize,
    /// What follows the value on the stream.
    tail: usize,
    fate: Fate,
    nested: Option<(Box<Job>, u32)>,
}
/// How an operation is meant to end.
#[derive(Clone, Debug)]
enum Fate {
    Fine,
    /// Its stream fails after this many bytes.
    Error(usize, Planted),
    /// Its stream panics at this call.
    Panic(u64),
    /// Its input ends early.
    Cut(usize),
}
/// Runs in a process of its own, which nothing before has touched.
fn isolated(f: impl FnOnce() -> Res) -> Res {
    unsafe {
        let pid = sys6(57, 0, 0, 0, 0, 0, 0);
        assert!(pid >= 0, "sim: fork");
        if pid == 0 {
            let ok = matches!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)), Ok(Ok(())));
            loop {
                sys6(231, if ok { 0 } else { 1 }, 0, 0, 0, 0, 0);
            }
        }
        let mut st = 0i32;
        loop {
            let r = sys6(61, pid as u64, &mut st as *mut i32 as u64, 0, 0, 0, 0);
            if r == pid {
                break;
            }
            assert!(r == -4, "sim: wait {}", r);
        }
        if st != 0 {
            return viol("fails alone", "");
        }
        Ok(())
    }
}
fn job(depth: u32, tiny: bool) -> Job {
    job_like(depth, tiny, None)
}
/// An operation, or one much like another: operations on the same code are the likeliest to get in each other's way.
fn job_like(depth: u32, tiny: bool, like: Option<(&'static Entry, u32)>) -> Job {
    let like = if like.is_some() && chance(1, 2) { like } else { None };
    let skips = like.is_none() && !tiny && chance(1, 12);
    // Deeply nested values: much is going on at a time.
    let deep = match like {
        None => !tiny && !skips && chance(1, 16),
        Some((e, _)) => !tiny && e.name == "Chain",
    };
    let (e, big, v, bytes) = loop {
        if deep {
            let e = by_name("Chain");
            ev(e.name, 0, 0);
            let big = chance(1, 2);
            let mut v = Val::E(0, vec![]);
            for _ in 0..*w().tape.pick(&[30u32, 60, 90, 130, 180, 700]) {
                v = Val::E(1, vec![Val::U(below(3) as u128), v]);
            }
            let d = encode(&e.s, &v, big);
            break (e, big, v, d);
        }
        let e = match like {
            Some((e, _)) => e,
            None => pick(|e| !e.borrowed && (!skips || e.name.contains("SkipN"))),
        };
        let big = draw_big(e);
        let (v, d) = sample(e, big, !tiny && chance(1, 4));
        if tiny && d.len() > 120 || e.t.regex && tiny {
            continue;
        }
        break (e, big, v, d);
    };
    let kind = match like {
        Some((_, k)) if chance(2, 3) => k,
        _ => below(8),
    };
    let chunk = *w().tape.pick(&[1usize, 2, 3, 5, 9, 100, 4000]);
    let chunk = if bytes.len() > 600 { chunk.max(100) } else { chunk };
    let tail = if e.t.eof_sensitive || tiny { 0 } else { *w().tape.pick(&[0usize, 1, 40, 1500, 9000]) };
    let n = bytes.len();
    let fate = match below(12) {
        0 if n > 0 && !e.t.eof_sensitive => Fate::Error(below(n as u32) as usize, Planted::draw()),
        1 if n > 0 => Fate::Panic(below(4) as u64),
        2 if n > 0 && !e.t.eof_sensitive => Fate::Cut(below(n as u32) as usize),
        _ => Fate::Fine,
    };
    let nested = if depth < 2 && chance(1, 3) { Some((Box::new(job_like(depth + 1, tiny, Some((e, kind)))), range(1, 4))) } else { None };
    Job { e, big, v, bytes, kind, chunk, tail, fate, nested }
}
impl Job {
    /// A rough measure of the work this takes, which bounds how often it is nested.
    fn cost(&self) -> usize {
        let own = self.bytes.len() + 64;
        match &self.nested {
            None => own,
            Some((inner, _)) => own + own.saturating_mul(inner.cost()).min(200_000.max(inner.cost())),
        }
    }
    fn check_enc(&self, r: Result<Vec<u8>, Fail>) -> Res {
        match r {
            Ok(b) => check_bytes(self.e, &self.v, self.big, &b),
            Err(f) => viol("encoding fails", format!("{}: {:?}", self.e.name, f)),
        }
    }
    /// This job and those nested in it, each by itself.
    fn alone(&self) -> Res {
        isolated(|| self.by_itself().run(None, false))?;
        match &self.nested {
            Some((n, _)) => n.alone(),
            None => Ok(()),
        }
    }
    fn by_itself(&self) -> Job {
        Job { e: self.e, big: self.big, v: self.v.clone(), bytes: self.bytes.clone(), kind: self.kind, chunk: self.chunk, tail: self.tail, fate: self.fate.clone(), nested: None }
    }
    /// Whether it failed as its stream made it fail.
    fn as_planned(&self, r: &Result<(), &Fail>, hit: bool) -> Option<Res> {
        if !hit {
            return None;
        }
        let bad = |r: &Result<(), &Fail>| viol("a failing operation ends differently", format!("{} with {:?}: {:?}", self.e.name, self.fate, r));
        Some(match (&self.fate, r) {
            (Fate::Error(_, p), Err(Fail::Err { io: Some(x), .. })) if *x == p.id() => Ok(()),
            (Fate::Panic(_), Err(Fail::Planned(_))) => Ok(()),
            (Fate::Cut(_), Err(Fail::Err { .. })) => Ok(()),
            _ => bad(r),
        })
    }
    /// `obj`: the shared object to encode; otherwise one of its own.
    fn run(&self, obj: Option<&dyn DynEnc>, yields: bool) -> Res {
        if self.kind < 4 {
            let mut r = Ok(());
            match obj {
                Some(o) => r = self.encode(o, yields),
                None => (self.e.obj.unwrap())(&self.v, &mut |o| r = self.encode(o, yields)),
            }
            r
        } else {
            self.decode(yields)
        }
    }
    fn encode(&self, o: &dyn DynEnc, yields: bool) -> Res {
        let ctx = SimCtx::new(self.big);
        match self.kind {
            0 => self.check_enc(o.to_vec(ctx)),
            1 => {
                let mut b = vec![0xEE; self.bytes.len()];
                let r = o.to_buffer(ctx, &mut b).map(|_| b);
                self.check_enc(r)
            }
            _ => {
                let mut s = SimSink::plain();
                s.chunks = Chunks::Fixed(self.chunk);
                s.yields = yields;
                match &self.fate {
                    Fate::Error(at, p) => s.err = Some((*at, p.clone())),
                    Fate::Panic(at) => s.panic_at = Some(*at),
                    _ => {}
                }
                let bad = Mutex::new(None);
                let r = match &self.nested {
                    None => o.to_stream(ctx, &mut s),
                    Some((j, every)) => {
                        let mut n = Nesting { inner: &mut s, job: j, bad: &bad, every: *every, n: 0 };
                        o.to_stream(ctx, &mut n)
                    }
                };
                if let Some(v) = bad.into_inner().unwrap() {
                    return Err(v);
                }
                let hit = s.err_hits > 0 || matches!(r, Err(Fail::Planned(_)));
                if let Some(x) = self.as_planned(&r.as_ref().map(|_| ()), hit) {
                    fired("operation that fails among others");
                    return x;
                }
                let out = std::mem::take(&mut s.out);
                self.check_enc(r.map(|_| out))
            }
        }
    }
    fn decode(&self, yields: bool) -> Res {
        let x = Expect { want: Want::Ok(self.v.clone()), pos: self.bytes.len(), extent: 0, saw_eof: false };
        let (how, o) = match self.kind {
            4 => (How::Buf, (self.e.dec)(self.big, Way::Buf(&self.bytes))),
            5 => (How::Copy, (self.e.dec)(self.big, Way::Copy(&self.bytes))),
            _ => {
                let mut data = self.bytes.clone();
                if let Fate::Cut(n) = self.fate {
                    data.truncate(n);
                } else {
                    data.extend((0..self.tail).map(|i| 0xC0 | i as u8));
                }
                let mut s = SimStream::plain(&data);
                s.chunks = Chunks::Fixed(self.chunk);
                s.yields = yields;
                let mut hits = (0, false);
                match &self.fate {
                    Fate::Error(at, p) => s.err = Some((*at, p.clone())),
                    Fate::Panic(at) => s.bad = Some(Misbehave::Panic(*at)),
                    _ => {}
                }
                let how = if self.kind == 6 { How::U } else { How::B };
                let bad = Mutex::new(None);
                let o = match &self.nested {
                    None => {
                        if how == How::U {
                            (self.e.dec)(self.big, Way::StreamU(&mut s))
                        } else {
                            (self.e.dec)(self.big, Way::StreamB(&mut s))
                        }
                    }
                    Some((j, every)) => {
                        let mut n = Nesting { inner: &mut s, job: j, bad: &bad, every: *every, n: 0 };
                        if how == How::U {
                            (self.e.dec)(self.big, Way::StreamU(&mut n))
                        } else {
                            (self.e.dec)(self.big, Way::StreamB(&mut n))
                        }
                    }
                };
                hits.0 += s.err_hits;
                hits.1 = s.bad_hit;
                if let Some(v) = bad.into_inner().unwrap() {
                    return Err(v);
                }
                let hit = hits.0 > 0 || hits.1 || matches!(self.fate, Fate::Cut(_));
                if let Some(x) = self.as_planned(&o.r.as_ref().map(|_| ()), hit) {
                    fired("operation that fails among others");
                    return x;
                }
                (how, o)
            }
        };
        compare(self.e.name, how, &x, &o, false)
    }
}
pub fn c17() -> Res {
    match below(24) {
        0..=7 => c17_tasks(false),
        8..=11 => c17_tasks(true),
        12..=15 => c17_envelope(),
        16 => c17_soak(),
        _ => c17_alternate(),
    }
}
/// Many operations on one thread, most of which fail; then one that must not notice.
fn c17_soak() -> Res {
    let mut base = job(9, false);
    base.fate = Fate::Fine;
    let n = *w().tape.pick(&[20usize, 150, 600, 1500]);
    let n = n.min(3_000_000 / (base.bytes.len() + 200));
    if w().control {
        return base.alone();
    }
    for _ in 0..n {
        let mut k = base.by_itself();
        k.kind = *w().tape.pick(&[6u32, 7, 6, 7, 2, base.kind]);
        let m = k.bytes.len() as u32;
        if m > 0 && !k.e.t.eof_sensitive {
            k.fate = match below(8) {
                0 => Fate::Error(below(m) as usize, Planted::draw()),
                1 => Fate::Panic(below(4) as u64),
                2 => Fate::Fine,
                // Nothing past the last byte or two is likely to matter.
                3 | 4 => Fate::Cut((m - 1) as usize),
                _ => Fate::Cut(below(m) as usize),
            };
        }
        k.run(None, false)?;
    }
    count("operations one after another on a thread", n as u64);
    for kind in 0..8 {
        let mut k = base.by_itself();
        k.kind = kind;
        k.run(None, false)?;
    }
    Ok(())
}
/// Several tasks; with `fine`, also switched between machine instructions.
fn c17_tasks(fine: bool) -> Res {
    let crowd = !fine && chance(1, 8);
    let n = if fine { 2 } else if crowd { range(5, 12) } else { range(2, 4) };
    // One value encoded by every task that draws a sharing operation.
    let shared = job(9, fine);
    let mut lists: Vec<(Vec<Job>, Vec<bool>)> = vec![];
    for _ in 0..n {
        let k = if fine || crowd { 1 } else { range(1, 3) };
        let alike = lists.first().map(|(j, _): &(Vec<Job>, Vec<bool>)| (j[0].e, j[0].kind)).filter(|_| crowd);
        let jobs: Vec<Job> = (0..k).map(|_| job_like(if fine { 9 } else { 0 }, fine, alike)).collect();
        let share = (0..k).map(|_| chance(1, 2)).collect();
        lists.push((jobs, share));
    }
    let kinds: Vec<u32> = (0..8).map(|_| below(4)).collect();
    // Where the baton changes hands, in instructions of library and user code.
    let mut plan = [(0u64, 0u64); 24];
    let mut at = 0;
    let span = *w().tape.pick(&[40u32, 300, 2000]);
    for p in plan.iter_mut() {
        at += 1 + below(span) as u64;
        *p = (at, below(7) as u64);
    }
    if w().control {
        for kind in 0..8 {
            for big in [false, !shared.e.le_only] {
                let bytes = encode(&shared.e.s, &shared.v, big);
                Job { e: shared.e, big, v: shared.v.clone(), bytes, kind, chunk: shared.chunk, tail: 0, fate: Fate::Fine, nested: None }.alone()?;
            }
        }
        for (jobs, _) in &lists {
            for j in jobs {
                j.alone()?;
            }
        }
        return Ok(());
    }
    let mut bads: Vec<Option<Viol>> = vec![None; n as usize];
    let mut rep = None;
    let mut go = |obj: &dyn DynEnc| {
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, ((jobs, share), bad)) in lists.iter().zip(bads.iter_mut()).enumerate() {
            let shared = &shared;
            let kinds = &kinds;
            tasks.push(Box::new(move || {
                for (k, j) in jobs.iter().enumerate() {
                    let one = || {
                        if share[k] {
                            let c = Job { e: shared.e, big: j.big && !shared.e.le_only, v: shared.v.clone(), bytes: shared.bytes.clone(), kind: kinds[(i * 3 + k) % 8], chunk: j.chunk, tail: j.tail.min(if shared.e.t.eof_sensitive { 0 } else { usize::MAX }), fate: Fate::Fine, nested: None };
                            fired("value shared between tasks");
                            c.run(Some(obj), true)
                        } else {
                            j.run(None, true)
                        }
                    };
                    let r = if fine { crate::step::stepped(one) } else { one() };
                    if let Err(v) = r {
                        *bad = Some(v);
                        return;
                    }
                }
            }));
        }
        let mut next = 0;
        let mut hook = || {
            if next < plan.len() && crate::step::steps() >= plan[next].0 {
                let r = plan[next].1;
                next += 1;
                sched::preempt(r);
            }
        };
        rep = Some(if fine { crate::step::with_hook(&mut hook, || sched::run(vec![], tasks)) } else { sched::run(vec![], tasks) });
    };
    (shared.e.obj.unwrap())(&shared.v, &mut |o| go(o));
    let rep = rep.unwrap();
    ev("switches", rep.switches, rep.preempts);
    if let Some(v) = bads.into_iter().flatten().next() {
        return Err(v);
    }
    if let Some((i, f)) = rep.panics.first() {
        return viol("panic", format!("task {}: {:?}", i, f));
    }
    if !rep.stall.is_empty() {
        return viol("stall", rep.stall.join(", "));
    }
    Ok(())
}
fn envelopes<'a, 's>(big: bool, way: Way<'a, 's>) -> DecOut {
    decode::<Vec<Envelope>>(big, way)
}
/// Operations nested inside user code: an envelope that encodes and decodes its content by separate calls.
fn c17_envelope() -> Res {
    let e = pick(|e| !e.borrowed && !e.t.eof_sensitive && !e.le_only);
    let (big, inner_big) = (chance(1, 2), chance(1, 2));
    let (v, d) = sample(e, inner_big, chance(1, 4));
    set_envelope(e, inner_big, v.clone());
    if w().control {
        // The inner value by itself, and the outer one with nothing nested in it.
        sound(e, inner_big, &v, &d)?;
        let o = by_name("Envelope alone");
        let v = Val::L(vec![Val::L(vec![Val::U(7), Val::B(d.clone()), Val::U(0x0102)])]);
        return sound(o, big, &v, &encode(&o.s, &v, big));
    }
    let count = range(1, 3) as usize;
    let mut want = Enc::new(big);
    let one = |c: &mut Enc| {
        c.val(&S::U(4), &Val::U(7));
        c.val(&Vec::<u8>::schema(), &Val::B(d.clone()));
        c.val(&S::U(2), &Val::U(0x0102));
    };
    want.val(&S::U(4), &Val::U(count as u128));
    for _ in 0..count {
        one(&mut want);
    }
    let x: Vec<Envelope> = (0..count).map(|_| Envelope).collect();
    let how = below(4);
    let got = match how {
        0 => x.to_vec(SimCtx::new(big)),
        1 => {
            let mut b = vec![0; want.out.len()];
            x.to_buffer(SimCtx::new(big), &mut b).map(|_| b)
        }
        2 => {
            let mut s = SimSink::draw(want.out.len());
            x.to_stream(SimCtx::new(big), &mut s).map(|_| s.out)
        }
        _ => {
            let p = spot("env");
            x.to_file(SimCtx::new(big), &p).map(|_| w().disk.get(&p).unwrap().to_vec())
        }
    };
    fired("operation nested inside user code");
    match got {
        Ok(b) => {
            if b.len() != want.out.len() || (!e.t.hashed && b != want.out) {
                return viol("wrong encoding", format!("envelope of {}: expected {} got {}", e.name, hex(&want.out), hex(&b)));
            }
            for &how in ALL_HOW {
                let (o, _) = run_dec(envelopes, big, &b, how);
                if let Err(f) = &o.r {
                    return viol("fails on a valid input", format!("envelope of {} by {:?}: {:?}", e.name, how, f));
                }
                if let Some(s) = envelope_bad() {
                    return viol("wrong value", format!("envelope of {} by {:?}: {}", e.name, how, s));
                }
            }
            Ok(())
        }
        Err(f) => viol("encoding fails", format!("envelope of {}: {:?}", e.name, f)),
    }
}
/// Operations on one thread, one inside the stream callbacks of another, several levels deep.
fn c17_alternate() -> Res {
    let mut j = job(0, false);
    for _ in 0..range(1, 2) {
        let mut k = job(0, false);
        if k.kind < 4 {
            k.kind = 2;
        } else {
            k.kind = 6 + k.kind % 2;
        }
        k.chunk = if k.bytes.len() > 600 { k.chunk.max(100) } else { k.chunk };
        k.nested = Some((Box::new(j), range(1, 3)));
        j = k;
    }
    // And one after another.
    let after: Vec<Job> = (0..below(3)).map(|_| job(0, false)).collect();
    if w().control {
        j.alone()?;
        for k in &after {
            k.alone()?;
        }
        return Ok(());
    }
    j.run(None, false)?;
    for k in &after {
        k.run(None, false)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C18
#[derive(Clone, Copy)]
enum At {
    A8(*const AtomicU8),
    A16(*const AtomicU16),
    A32(*const AtomicU32),
    A64(*const AtomicU64),
    I8(*const AtomicI8),
    I16(*const AtomicI16),
    I32(*const AtomicI32),
    I64(*const AtomicI64),
}
impl At {
    fn store(self, v: u64) {
        unsafe {
            match self {
                At::A8(p) => (*p).store(v as u8, Ordering::SeqCst),
                At::A16(p) => (*p).store(v as u16, Ordering::SeqCst),
                At::A32(p) => (*p).store(v as u32, Ordering::SeqCst),
                At::A64(p) => (*p).store(v, Ordering::SeqCst),
                At::I8(p) => (*p).store(v as i8, Ordering::SeqCst),
                At::I16(p) => (*p).store(v as i16, Ordering::SeqCst),
                At::I32(p) => (*p).store(v as i32, Ordering::SeqCst),
                At::I64(p) => (*p).store(v as i64, Ordering::SeqCst),
            }
        }
    }
    fn load(self) -> u64 {
        unsafe {
            match self {
                At::A8(p) => (*p).load(Ordering::SeqCst) as u64,
                At::A16(p) => (*p).load(Ordering::SeqCst) as u64,
                At::A32(p) => (*p).load(Ordering::SeqCst) as u64,
                At::A64(p) => (*p).load(Ordering::SeqCst),
                At::I8(p) => (*p).load(Ordering::SeqCst) as u8 as u64,
                At::I16(p) => (*p).load(Ordering::SeqCst) as u16 as u64,
                At::I32(p) => (*p).load(Ordering::SeqCst) as u32 as u64,
                At::I64(p) => (*p).load(Ordering::SeqCst) as u64,
            }
        }
    }
    fn bytes(self) -> u32 {
        match self {
            At::A8(_) | At::I8(_) => 1,
            At::A16(_) | At::I16(_) => 2,
            At::A32(_) | At::I32(_) => 4,
            At::A64(_) | At::I64(_) => 8,
        }
    }
}
#[derive(speedy::Readable, speedy::Writable)]
struct Shared18 {
    head: u32,
    a: AtomicU64,
    b: AtomicU16,
    v: Vec<AtomicU32>,
    c: AtomicI8,
    w: [AtomicU64; 3],
    x: Box<[AtomicI16]>,
    o: Option<AtomicI64>,
    p: (u8, AtomicU32, u16),
    m: std::collections::BTreeMap<u8, AtomicI32>,
    z: Vec<AtomicU8>,
    tail: String,
}
pub fn c18() -> Res {
    let big = chance(1, 2);
    let n = [below(4) as usize, below(3) as usize, below(3) as usize, below(3) as usize];
    let s = Shared18 {
        head: 0xA1A2_A3A4,
        a: Default::default(),
        b: Default::default(),
        v: (0..n[0]).map(|_| Default::default()).collect(),
        c: Default::default(),
        w: Default::default(),
        x: (0..n[1]).map(|_| Default::default()).collect(),
        o: Some(Default::default()),
        p: (9, Default::default(), 0x0B0C),
        m: (0..n[2]).map(|i| (i as u8, Default::default())).collect(),
        z: (0..n[3]).map(|_| Default::default()).collect(),
        tail: "tail".into(),
    };
    let mut all: Vec<At> = vec![At::A64(&s.a), At::A16(&s.b)];
    all.extend(s.v.iter().map(|x| At::A32(x)));
    all.push(At::I8(&s.c));
    all.extend(s.w.iter().map(|x| At::A64(x)));
    all.extend(s.x.iter().map(|x| At::I16(x)));
    all.push(At::I64(s.o.as_ref().unwrap()));
    all.push(At::A32(&s.p.1));
    all.extend(s.m.values().map(|x| At::I32(x)));
    all.extend(s.z.iter().map(|x| At::A8(x)));
    let total: u64 = all.len() as u64;
    let seed = below(u32::MAX) as u64;
    let uniform = chance(1, 2);
    let period = *w().tape.pick(&[1u64, 2, 3, 7, 31, 200]);
    let value = move |which: u64, k: u64| {
        if uniform {
            // All bytes alike: a mixture of two values shows in itself.
            (1 + (k * 7 + which) % 255) * 0x0101_0101_0101_0101
        } else {
            mix(seed + which, k)
        }
    };
    // stores[i]: how many values atomic i has held.
    let mut stores = vec![1u64; all.len()];
    for (i, a) in all.iter().enumerate() {
        a.store(value(i as u64, 0));
    }
    let kind = below(5);
    let len = {
        let head = 4 + 8 + 2 + 4 + 4 * n[0] + 1 + 24 + 4 + 2 * n[1] + 1 + 8 + 7 + 4 + 5 * n[2] + 4 + n[3] + 8;
        head
    };
    let mut buf = vec![0u8; len];
    let mut sink = SimSink::plain();
    sink.out.reserve(4096);
    sink.chunks = Chunks::Fixed(*w().tape.pick(&[1usize, 3, 100]));
    let mask = |nb: u32| if nb == 8 { u64::MAX } else { (1 << (8 * nb)) - 1 };
    // Only the other thread stores anything.
    let mut meddled = None;
    let got = {
        let mut n = 0u64;
        let mut writes = 0u64;
        let all = &all;
        let stores = &mut stores;
        let meddled = &mut meddled;
        let mut hook = || {
            n += 1;
            if n % period == 0 {
                writes += 1;
                let i = if period <= 3 { writes % total } else { mix(seed, writes) % total };
                let k = &mut stores[i as usize];
                let a = all[i as usize];
                if meddled.is_none() && a.load() != value(i, *k - 1) & mask(a.bytes()) {
                    *meddled = Some((i, a.load()));
                }
                all[i as usize].store(value(i, *k));
                *k += 1;
            }
        };
        let s = &s;
        let ctx = SimCtx::new(big);
        crate::step::with_hook(&mut hook, || {
            crate::step::stepped(|| match kind {
                0 => s.to_vec(ctx),
                1 => s.to_buffer(ctx, &mut buf).map(|_| std::mem::take(&mut buf)),
                2 => s.to_stream(ctx, &mut sink).map(|_| std::mem::take(&mut sink.out)),
                3 => {
                    let mut m = MiniWriter { ctx, out: Vec::with_capacity(4096), fail_at: None };
                    s.to_mini(&mut m).map(|_| m.out)
                }
                _ => {
                    let r = s.needed();
                    r.map(|n| vec![0; n])
                }
            })
        })
    };
    let writes: u64 = stores.iter().sum::<u64>() - total;
    count("atomic stores between instructions of the encoder", writes);
    ev("stores", writes, kind as u64);
    let got = match got {
        Ok(b) => b,
        Err(f) => return viol("encoding fails", format!("{:?}", f)),
    };
    ev("encoded", hash_bytes(&got), 0);
    if got.len() != len {
        return viol("wrong length", format!("{} bytes instead of {}", got.len(), len));
    }
    for (i, a) in all.iter().enumerate() {
        if meddled.is_none() && a.load() != value(i as u64, stores[i] - 1) & mask(a.bytes()) {
            meddled = Some((i as u64, a.load()));
        }
    }
    if let Some((i, v)) = meddled {
        return viol("encoding changes an atomic", format!("atomic {} was found holding {:#x}, which the other thread did not store last", i, v));
    }
    if kind > 3 {
        return Ok(());
    }
    // Walk the encoding: fixed parts by value, atomics by membership.
    struct Walk<'x> {
        b: &'x [u8],
        pos: usize,
        next: usize,
        big: bool,
    }
    impl<'x> Walk<'x> {
        fn int(&mut self, n: usize) -> u64 {
            let mut v = 0u64;
            for i in 0..n {
                let k = if self.big { i } else { n - 1 - i };
                v = v << 8 | self.b[self.pos + k] as u64;
            }
            self.pos += n;
            v
        }
        fn fixed(&mut self, n: usize, want: u64) -> Res {
            let at = self.pos;
            let v = self.int(n);
            if v != want {
                return viol("the rest of the encoding is affected", format!("{:#x} instead of {:#x} at byte {}", v, want, at));
            }
            Ok(())
        }
    }
    let mut wk = Walk { b: &got, pos: 0, next: 0, big };
    let atoms = |wk: &mut Walk, k: usize| -> Res {
        for _ in 0..k {
            let i = wk.next;
            wk.next += 1;
            let nb = all[i].bytes();
            let v = wk.int(nb as usize);
            if !(0..stores[i]).any(|k| value(i as u64, k) & mask(nb) == v) {
                return viol("a value the atomic never held", format!("atomic {} of {} bytes encoded as {:#x}", i, nb, v));
            }
        }
        Ok(())
    };
    wk.fixed(4, 0xA1A2_A3A4)?;
    atoms(&mut wk, 2)?;
    wk.fixed(4, n[0] as u64)?;
    atoms(&mut wk, n[0] + 4)?;
    wk.fixed(4, n[1] as u64)?;
    atoms(&mut wk, n[1])?;
    wk.fixed(1, 1)?;
    atoms(&mut wk, 1)?;
    wk.fixed(1, 9)?;
    atoms(&mut wk, 1)?;
    wk.fixed(2, 0x0B0C)?;
    wk.fixed(4, n[2] as u64)?;
    for i in 0..n[2] {
        wk.fixed(1, i as u64)?;
        atoms(&mut wk, 1)?;
    }
    wk.fixed(4, n[3] as u64)?;
    atoms(&mut wk, n[3])?;
    wk.fixed(4, 4)?;
    for b in b"tail" {
        wk.fixed(1, *b as u64)?;
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------------------------- C19
pub fn c19() -> Res {
    let e = pick(|_| true);
    let big = draw_big(e);
    let mut v = e.gen(chance(1, 4));
    let start = v.clone();
    note(|| format!("value {} big-endian={}", v.short(), big));
    for hop in 0..range(1, 4) {
        let bytes = c19_encode(e, &v, big)?;
        ev("hop", bytes.len() as u64, hash_bytes(&bytes));
        let bytes = c19_carry(bytes)?;
        let x = Expect { want: Want::Ok(start.clone()), pos: bytes.len(), extent: 0, saw_eof: false };
        // The receiver: the library by some entry point, or a party that only knows the format.
        if chance(1, 6) {
            let m = expect(e, &bytes, big);
            if m.want != Want::Ok(start.clone()) || m.pos != bytes.len() {
                return viol("the documented format decodes it differently", format!("{}: sent {} received {:?}", e.name, start.short(), m.want));
            }
        } else {
            let how = *w().tape.pick(hows(e));
            let g = Guarded::new(&bytes, below(9) as usize);
            let (o, _) = run_how(e, big, g.bytes(), how);
            compare(e.name, how, &x, &o, false)?;
            if let Ok(g) = o.r {
                v = g;
            }
        }
        let _ = hop;
    }
    Ok(())
}
fn c19_encode(e: &Entry, v: &Val, big: bool) -> Result<Vec<u8>, Viol> {
    if chance(1, 6) {
        return Ok(encode(&e.s, v, big));
    }
    let how = below(7);
    let mut r: Result<Vec<u8>, Fail> = Ok(vec![]);
    let n = encode(&e.s, v, big).len();
    (e.obj.unwrap())(v, &mut |o| {
        let ctx = SimCtx::new(big);
        r = match how {
            0 => o.to_vec(ctx),
            1 => {
                let mut c = ctx;
                o.to_vec_mut(&mut c)
            }
            2 => {
                let mut b = vec![0x77; n];
                o.to_buffer(ctx, &mut b).map(|_| b)
            }
            3 => {
                let mut c = ctx;
                let mut b = vec![0x77; n];
                o.to_buffer_mut(&mut c, &mut b).map(|_| b)
            }
            4 => {
                let mut s = SimSink::draw(n);
                o.to_stream(ctx, &mut s).map(|_| s.out)
            }
            5 => {
                let p = spot("out");
                w().disk.short = chance(1, 2);
                let r = o.to_file(ctx, &p).map(|_| w().disk.get(&p).unwrap_or(b"").to_vec());
                w().disk.short = false;
                r
            }
            _ => {
                let mut m = MiniWriter { ctx, out: vec![], fail_at: None };
                o.to_mini(&mut m).map(|_| m.out)
            }
        };
    });
    match r {
        Ok(b) => {
            check_bytes(e, v, big, &b)?;
            Ok(b)
        }
        Err(f) => viol("encoding fails", format!("{} {} by way {}: {:?}", e.name, v.short(), how, f)),
    }
}
/// A bounded channel between two tasks now and then; otherwise nothing happens to the bytes on the way.
fn c19_carry(b: Vec<u8>) -> Result<Vec<u8>, Viol> {
    if b.len() > 3000 || !chance(1, 4) {
        return Ok(b);
    }
    let mut out = Vec::with_capacity(b.len());
    let rep = {
        let o = &mut out;
        let n = b.len();
        let b = &b;
        let tasks: Vec<Box<dyn FnOnce() + Send>> = vec![
            Box::new(move || {
                let _ = TxEnd { p: 0, crash_at: None }.write_all(b);
            }),
            Box::new(move || {
                let mut rx = RxEnd(0);
                let mut c = [0; 64];
                while o.len() < n {
                    match rx.read(&mut c) {
                        Ok(0) => break,
                        Ok(k) => o.extend_from_slice(&c[..k]),
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(_) => break,
                    }
                }
            }),
        ];
        sched::run(vec![pipe()], tasks)
    };
    assert!(rep.stall.is_empty() && out == b, "sim: the channel changed the bytes");
    fired("carried over a channel");
    Ok(out)
}
