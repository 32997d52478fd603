//! Tasks are real threads that hold a baton one at a time; which runnable task gets it next is a draw from the tape.
//! Blocking is on bounded pipes with latency, or on the virtual clock; when nothing is runnable the clock jumps to the
//! next arrival or timer, and if there is none the run has stalled.
use crate::alloc;
use crate::base::*;
use crate::os::sys6;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU32, Ordering};

/// Unwinds a task that can never run again.
pub struct Abort;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Wait {
    Ready,
    Read(usize),
    Write(usize),
    Until(u64),
    Done,
}
pub struct Pipe {
    q: VecDeque<(u64, u8)>,
    cap: usize,
    latency: u32,
    last: u64,
    pub closed_w: bool,
    pub closed_r: bool,
    pub sent: u64,
    pub got: u64,
    chunk: u32,
    intr: u32,
    intr_run: u32,
}
pub struct Sched {
    waits: Vec<Wait>,
    words: Vec<Box<AtomicU32>>,
    main: Box<AtomicU32>,
    pub cur: usize,
    pub pipes: Vec<Pipe>,
    stalled: bool,
    pub stall: Vec<String>,
    pub switches: u64,
    pub preempts: u64,
}
static mut SCHED: *mut Sched = std::ptr::null_mut();
fn s() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}
pub fn active() -> bool {
    unsafe { !SCHED.is_null() }
}
fn futex_wait(a: &AtomicU32) {
    while a.load(Ordering::Acquire) == 0 {
        unsafe {
            sys6(202, a as *const _ as u64, 128, 0, 0, 0, 0);
        }
    }
    a.store(0, Ordering::Release);
}
fn futex_wake(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    unsafe {
        sys6(202, a as *const _ as u64, 129, 1, 0, 0, 0);
    }
}
impl Sched {
    fn runnable(&self, i: usize) -> bool {
        match self.waits[i] {
            Wait::Ready => true,
            Wait::Done => false,
            Wait::Until(t) => w().now >= t,
            Wait::Read(p) => {
                let p = &self.pipes[p];
                p.q.front().map(|x| x.0 <= w().now).unwrap_or(p.closed_w)
            }
            Wait::Write(p) => {
                let p = &self.pipes[p];
                p.q.len() < p.cap || p.closed_r
            }
        }
    }
    fn next_time(&self) -> Option<u64> {
        let mut best: Option<u64> = None;
        for wt in &self.waits {
            let t = match wt {
                Wait::Until(t) => Some(*t),
                Wait::Read(p) => self.pipes[*p].q.front().map(|x| x.0),
                _ => None,
            };
            if let Some(t) = t {
                if t > w().now {
                    best = Some(best.map_or(t, |b| b.min(t)));
                }
            }
        }
        best
    }
    fn live(&self) -> bool {
        self.waits.iter().any(|x| *x != Wait::Done)
    }
    /// Chooses who runs next; None when every task is done.
    fn choose(&mut self) -> Option<usize> {
        loop {
            if !self.live() {
                return None;
            }
            let mut r: Vec<usize> = (0..self.waits.len()).filter(|&i| self.runnable(i)).collect();
            if let Some(p) = r.iter().position(|&i| i == self.cur) {
                // Draw 0 lets the current task go on.
                r.swap(0, p);
            }
            if !r.is_empty() {
                let k = if r.len() == 1 { 0 } else { below(r.len() as u32) as usize };
                return Some(r[k]);
            }
            if let Some(t) = self.next_time() {
                w().now = t;
                ev("clock", t, 0);
                continue;
            }
            // Nothing can ever run again: unwind the blocked tasks one by one.
            if !self.stalled {
                self.stalled = true;
                for (i, wt) in self.waits.iter().enumerate() {
                    if *wt != Wait::Done {
                        self.stall.push(format!("task {} waits for {:?}", i, wt));
                    }
                }
                ev("stall", 0, 0);
            }
            return self.waits.iter().position(|x| *x != Wait::Done);
        }
    }
}
fn hand_over(me: Option<usize>) {
    let k = s();
    match k.choose() {
        None => {
            if me.is_some() {
                futex_wake(&k.main);
            }
        }
        Some(i) => {
            if Some(i) == me && k.waits[i] != Wait::Done {
                return;
            }
            k.switches += 1;
            k.cur = i;
            ev("run", i as u64, 0);
            futex_wake(&k.words[i]);
            if let Some(m) = me {
                if k.waits[m] != Wait::Done {
                    futex_wait(&k.words[m]);
                }
            }
        }
    }
}
fn wait_on(wt: Wait) {
    let k = s();
    let me = k.cur;
    k.waits[me] = wt;
    if k.stalled {
        k.waits[me] = Wait::Ready;
        std::panic::resume_unwind(Box::new(Abort));
    }
    hand_over(Some(me));
    let k = s();
    if k.stalled && !k.runnable(me) {
        k.waits[me] = Wait::Ready;
        std::panic::resume_unwind(Box::new(Abort));
    }
    k.waits[me] = Wait::Ready;
}
/// A point where any other runnable task may take over.
pub fn yield_now() {
    if active() {
        crate::step::paused(|| alloc::unscope(|| wait_on(Wait::Ready)))
    }
}
pub fn sleep(t: u64) {
    wait_on(Wait::Until(w().now + t))
}
/// Called from the single-step handler: hands the baton on without allocating. `r` is a planned number.
pub fn preempt(r: u64) {
    if !active() {
        return;
    }
    let k = s();
    let me = k.cur;
    let n = k.waits.len();
    for d in 0..n {
        let i = (me + 1 + (r as usize + d) % n) % n;
        if i != me && k.waits[i] == Wait::Ready {
            k.preempts += 1;
            k.switches += 1;
            k.cur = i;
            futex_wake(&k.words[i]);
            futex_wait(&k.words[me]);
            return;
        }
    }
}
pub struct Report {
    pub stall: Vec<String>,
    pub switches: u64,
    pub preempts: u64,
    /// Panic payloads of tasks that ended in one, by task.
    pub panics: Vec<(usize, crate::api::Fail)>,
}
pub struct PipeCfg {
    pub cap: usize,
    pub latency: u32,
    pub chunk: u32,
    pub intr: u32,
}
/// Runs the tasks to the end. Tasks may borrow from the caller's frame: every thread is joined before returning.
pub fn run<'a>(pipes: Vec<PipeCfg>, tasks: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Report {
    let n = tasks.len();
    let mut k = Sched {
        waits: vec![Wait::Ready; n],
        words: (0..n).map(|_| Box::new(AtomicU32::new(0))).collect(),
        main: Box::new(AtomicU32::new(0)),
        cur: 0,
        pipes: pipes
            .into_iter()
            .map(|c| Pipe { q: VecDeque::new(), cap: c.cap.max(1), latency: c.latency, last: 0, closed_w: false, closed_r: false, sent: 0, got: 0, chunk: c.chunk, intr: c.intr, intr_run: 0 })
            .collect(),
        stalled: false,
        stall: vec![],
        switches: 0,
        preempts: 0,
    };
    unsafe { SCHED = &mut k };
    let mut panics = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    futex_wait(&s().words[i]);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                    let r = match r {
                        Ok(()) => None,
                        Err(p) => {
                            if p.is::<Abort>() {
                                None
                            } else {
                                // A defect of the simulator inside a task is carried to the case.
                                Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::api::panic_fail(p))))
                            }
                        }
                    };
                    s().waits[i] = Wait::Done;
                    hand_over(Some(i));
                    r
                })
                .expect("sim: spawn");
            hs.push(h);
        }
        hand_over(None);
        futex_wait(&s().main);
        for (i, h) in hs.into_iter().enumerate() {
            match h.join() {
                Ok(None) => {}
                Ok(Some(Ok(f))) => panics.push((i, f)),
                Ok(Some(Err(p))) | Err(p) => {
                    unsafe { SCHED = std::ptr::null_mut() };
                    std::panic::resume_unwind(p)
                }
            }
        }
    });
    unsafe { SCHED = std::ptr::null_mut() };
    count("task switches", k.switches);
    if k.preempts > 0 {
        count("preemptions inside library code", k.preempts);
    }
    Report { stall: k.stall, switches: k.switches, preempts: k.preempts, panics }
}

/// The two ends of a pipe.
pub struct RxEnd(pub usize);
pub struct TxEnd {
    pub p: usize,
    /// The task dies (unwinds) when it has sent this many bytes.
    pub crash_at: Option<u64>,
}
impl Read for RxEnd {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        crate::step::paused(|| alloc::unscope(|| pipe_read(self.0, out)))
    }
}
fn pipe_read(i: usize, out: &mut [u8]) -> io::Result<usize> {
    if out.is_empty() {
        return Ok(0);
    }
    wait_on(Wait::Ready);
    let k = s();
    if k.pipes[i].intr > 0 && k.pipes[i].intr_run < 3 && chance(k.pipes[i].intr, 16) {
        k.pipes[i].intr_run += 1;
        fired("pipe read EINTR");
        return Err(io::Error::from(io::ErrorKind::Interrupted));
    }
    wait_on(Wait::Read(i));
    let now = w().now;
    let p = &mut s().pipes[i];
    p.intr_run = 0;
    let mut n = 0;
    let lim = if p.chunk == 0 { out.len() } else { range(1, p.chunk) as usize };
    while n < out.len() && n < lim {
        match p.q.front() {
            Some(x) if x.0 <= now => {
                out[n] = x.1;
                n += 1;
                p.q.pop_front();
            }
            _ => break,
        }
    }
    p.got += n as u64;
    if n == 0 {
        fired("pipe end of input");
    }
    ev("pipe read", out.len() as u64, n as u64);
    Ok(n)
}
impl Drop for RxEnd {
    fn drop(&mut self) {
        if active() {
            crate::step::paused(|| s().pipes[self.0].closed_r = true)
        }
    }
}
impl Drop for TxEnd {
    fn drop(&mut self) {
        if active() {
            crate::step::paused(|| s().pipes[self.p].closed_w = true)
        }
    }
}
impl Write for TxEnd {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::step::paused(|| alloc::unscope(|| pipe_write(self, b)))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn pipe_write(t: &mut TxEnd, b: &[u8]) -> io::Result<usize> {
    if b.is_empty() {
        return Ok(0);
    }
    let i = t.p;
    wait_on(Wait::Ready);
    {
        let p = &mut s().pipes[i];
        if let Some(c) = t.crash_at {
            if p.sent >= c {
                fired("peer crash while sending");
                std::panic::resume_unwind(Box::new(Planned("peer crash")));
            }
        }
        if p.intr > 0 && p.intr_run < 3 && chance(p.intr, 16) {
            p.intr_run += 1;
            fired("pipe write EINTR");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
    }
    wait_on(Wait::Write(i));
    let now = w().now;
    let p = &mut s().pipes[i];
    p.intr_run = 0;
    if p.closed_r {
        fired("pipe broken");
        return Err(io::Error::from(io::ErrorKind::BrokenPipe));
    }
    let mut n = b.len().min(p.cap - p.q.len());
    if p.chunk != 0 {
        n = n.min(range(1, p.chunk) as usize);
    }
    if let Some(c) = t.crash_at {
        n = n.min((c - p.sent) as usize);
    }
    let at = (now + if p.latency > 0 { below(p.latency) as u64 } else { 0 }).max(p.last);
    p.last = at;
    p.q.extend(b[..n].iter().map(|&x| (at, x)));
    p.sent += n as u64;
    if n < b.len() {
        count("pipe short write", 1);
    }
    ev("pipe write", b.len() as u64, n as u64);
    Ok(n)
}
/// Bytes sitting in a pipe.
pub fn in_flight(i: usize) -> usize {
    s().pipes[i].q.len()
}
