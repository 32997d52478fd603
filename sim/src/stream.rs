//! Simulated byte transports for a single task: a source and a sink whose every decision comes from the tape.
use crate::alloc;
use crate::api::IoId;
use crate::base::*;
use std::io::{self, Read, Write};

#[derive(Clone)]
pub enum Chunks {
    Full,
    Fixed(usize),
    /// Every size drawn from the tape.
    Tape(u32),
    /// Sizes from a generator seeded from the tape (large inputs).
    Rand(Rng, usize),
    /// Stops exactly at these absolute offsets.
    Marks(Vec<usize>),
}
impl Chunks {
    /// Draws a delivery policy for an input of `n` bytes.
    pub fn draw(n: usize) -> Chunks {
        match below(8) {
            0 => Chunks::Full,
            1 => Chunks::Fixed(1),
            2 => Chunks::Fixed(range(2, 17) as usize),
            3 => Chunks::Fixed(*w().tape.pick(&[4095usize, 4096, 4097, 8191, 8192, 8193, 1000])),
            4 | 5 => {
                if n <= 300 {
                    Chunks::Tape(12)
                } else {
                    Chunks::Rand(Rng::new(below(1 << 30) as u64), *w().tape.pick(&[16usize, 300, 5000, 9000]))
                }
            }
            6 => {
                let k = range(1, 4);
                let mut m: Vec<usize> = (0..k).map(|_| below(n as u32 + 1) as usize).collect();
                m.sort();
                Chunks::Marks(m)
            }
            _ => Chunks::Rand(Rng::new(below(1 << 30) as u64), *w().tape.pick(&[3usize, 40, 700, 8200])),
        }
    }
    fn next(&mut self, pos: usize, want: usize) -> usize {
        let n = match self {
            Chunks::Full => want,
            Chunks::Fixed(k) => *k,
            Chunks::Tape(k) => range(1, *k) as usize,
            Chunks::Rand(r, k) => 1 + r.below(*k as u64) as usize,
            Chunks::Marks(m) => m.iter().find(|&&x| x > pos).map(|x| x - pos).unwrap_or(want),
        };
        n.max(1).min(want)
    }
}
#[derive(Clone, Debug)]
pub enum Planted {
    Os(i32),
    Kind(io::ErrorKind),
    Msg(io::ErrorKind, String),
}
impl Planted {
    pub fn draw() -> Planted {
        match below(8) {
            0 => Planted::Os(crate::os::EIO),
            1 => Planted::Os(*w().tape.pick(&[104, 110, 32, 28, 11, 9, 107])),
            2 => Planted::Kind(io::ErrorKind::ConnectionReset),
            3 => Planted::Kind(io::ErrorKind::WouldBlock),
            4 => Planted::Kind(io::ErrorKind::TimedOut),
            5 => Planted::Msg(io::ErrorKind::Other, format!("planted failure {}", below(1000))),
            6 => Planted::Msg(io::ErrorKind::InvalidData, "planted: end of file reached?".into()),
            _ => Planted::Msg(io::ErrorKind::WriteZero, "planted: zero".into()),
        }
    }
    pub fn make(&self) -> io::Error {
        match self {
            Planted::Os(n) => io::Error::from_raw_os_error(*n),
            Planted::Kind(k) => io::Error::from(*k),
            Planted::Msg(k, s) => io::Error::new(*k, s.clone()),
        }
    }
    pub fn id(&self) -> IoId {
        IoId::of(&self.make())
    }
    pub fn name(&self) -> &'static str {
        match self {
            Planted::Os(_) => "stream error with OS code",
            Planted::Kind(_) => "stream error kind",
            Planted::Msg(..) => "stream error with message",
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Misbehave {
    /// Claims this many more bytes than the destination holds, at the k-th read.
    Over(u64, usize),
    /// Panics at the k-th read.
    Panic(u64),
    /// Reports an end of input at the k-th read and then goes on delivering.
    EarlyEof(u64),
    /// Fills more of nothing: claims n bytes but writes none (stale destination) at the k-th read.
    Unfilled(u64),
}
pub struct SimStream<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub chunks: Chunks,
    /// In sixteenths.
    pub intr: u32,
    pub intr_budget: u32,
    pub intrs: u64,
    pub err: Option<(usize, Planted)>,
    /// The error happens once and delivery goes on afterwards (instead of failing for good).
    pub transient: bool,
    pub err_hits: u64,
    /// A read issued once this many bytes are delivered would block forever.
    pub block_at: Option<usize>,
    pub would_block: bool,
    pub eofs: u64,
    pub reads: u64,
    pub budget: u64,
    pub bad: Option<Misbehave>,
    pub bad_hit: bool,
    /// The excessive claim was made for a read that was otherwise served in full.
    pub over_filled: bool,
    /// Yields to other tasks at every read.
    pub yields: bool,
    pub max_want: usize,
}
impl<'a> SimStream<'a> {
    pub fn plain(data: &'a [u8]) -> Self {
        SimStream {
            data,
            pos: 0,
            chunks: Chunks::Full,
            intr: 0,
            intr_budget: 0,
            intrs: 0,
            err: None,
            transient: false,
            err_hits: 0,
            block_at: None,
            would_block: false,
            eofs: 0,
            reads: 0,
            budget: data.len() as u64 * 4 + 4000,
            bad: None,
            bad_hit: false,
            over_filled: false,
            yields: false,
            max_want: 0,
        }
    }
    /// A delivery drawn from the tape: chunking and interruptions, no failures.
    pub fn draw(data: &'a [u8]) -> Self {
        let mut s = Self::plain(data);
        s.chunks = Chunks::draw(data.len());
        match below(4) {
            0 | 1 => {}
            2 => {
                s.intr = range(1, 6);
                s.intr_budget = 40;
            }
            _ => {
                s.intr = 14;
                s.intr_budget = 24;
            }
        }
        s
    }
    pub fn describe(&self) -> String {
        let c = match &self.chunks {
            Chunks::Full => "as asked".to_string(),
            Chunks::Fixed(k) => format!("at most {} per read", k),
            Chunks::Tape(k) => format!("1..={} per read", k),
            Chunks::Rand(_, k) => format!("random 1..={} per read", k),
            Chunks::Marks(m) => format!("cut at {:?}", m),
        };
        format!("stream of {} bytes, {}, EINTR {}/16, error {:?}, misbehaviour {:?}", self.data.len(), c, self.intr, self.err, self.bad)
    }
    fn go(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if self.yields {
            crate::sched::yield_now();
        }
        self.reads += 1;
        if self.reads > self.budget {
            std::panic::resume_unwind(Box::new(Planned("hang: too many reads")));
        }
        self.max_want = self.max_want.max(out.len());
        if out.is_empty() {
            ev("read nothing", 0, 0);
            return Ok(0);
        }
        crate::props_user::op();
        match self.bad {
            Some(Misbehave::Over(k, extra)) if k == self.reads - 1 => {
                self.bad_hit = true;
                fired("stream claims more than asked");
                let n = out.len().min(self.data.len() - self.pos);
                out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                self.over_filled = n == out.len();
                return Ok(out.len().saturating_add(extra));
            }
            Some(Misbehave::Panic(k)) if k == self.reads - 1 => {
                self.bad_hit = true;
                fired("stream panics");
                std::panic::resume_unwind(Box::new(Planned("stream panic")));
            }
            Some(Misbehave::EarlyEof(k)) if k == self.reads - 1 => {
                self.bad_hit = true;
                fired("stream early end of input");
                return Ok(0);
            }
            Some(Misbehave::Unfilled(k)) if k == self.reads - 1 => {
                self.bad_hit = true;
                fired("stream claims bytes it did not write");
                return Ok(out.len());
            }
            _ => {}
        }
        if self.intr > 0 && self.intr_budget > 0 && chance(self.intr, 16) {
            self.intr_budget -= 1;
            self.intrs += 1;
            fired("stream EINTR");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut end = self.data.len();
        if let Some((at, e)) = &self.err {
            if self.err_hits == 0 || !self.transient {
                if self.pos >= *at {
                    self.err_hits += 1;
                    let n = e.name();
                    let e = e.make();
                    fired(n);
                    return Err(e);
                }
                end = end.min(*at);
            }
        }
        if let Some(b) = self.block_at {
            if self.pos >= b {
                self.would_block = true;
                fired("read that would block");
                std::panic::resume_unwind(Box::new(Planned("would block")));
            }
            end = end.min(b);
        }
        let left = end - self.pos.min(end);
        if left == 0 {
            self.eofs += 1;
            ev("stream end", self.pos as u64, 0);
            return Ok(0);
        }
        let want = out.len().min(left);
        let n = self.chunks.next(self.pos, want);
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        ev("read", out.len() as u64, n as u64);
        Ok(n)
    }
}
impl<'a> Read for SimStream<'a> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        crate::step::paused(|| alloc::unscope(|| self.go(out)))
    }
}

pub struct SimSink {
    pub out: Vec<u8>,
    pub chunks: Chunks,
    pub intr: u32,
    pub intr_budget: u32,
    pub err: Option<(usize, Planted)>,
    /// Accepts nothing (`Ok(0)`) once this many bytes are taken.
    pub zero_at: Option<usize>,
    pub zeros: u64,
    pub transient: bool,
    pub err_hits: u64,
    pub writes: u64,
    pub flushes: u64,
    pub after_err: u64,
    pub panic_at: Option<u64>,
    pub yields: bool,
}
impl SimSink {
    pub fn plain() -> Self {
        SimSink {
            out: vec![],
            chunks: Chunks::Full,
            intr: 0,
            intr_budget: 0,
            err: None,
            zero_at: None,
            zeros: 0,
            transient: false,
            err_hits: 0,
            writes: 0,
            flushes: 0,
            after_err: 0,
            panic_at: None,
            yields: false,
        }
    }
    pub fn draw(n: usize) -> Self {
        let mut s = Self::plain();
        s.chunks = Chunks::draw(n);
        if chance(1, 2) {
            s.intr = range(1, 12);
            s.intr_budget = 40;
        }
        s
    }
    fn go(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.yields {
            crate::sched::yield_now();
        }
        self.writes += 1;
        if self.writes > 2_000_000 {
            std::panic::resume_unwind(Box::new(Planned("hang: too many writes")));
        }
        if b.is_empty() {
            return Ok(0);
        }
        crate::props_user::op();
        if self.panic_at == Some(self.writes - 1) {
            fired("sink panics");
            std::panic::resume_unwind(Box::new(Planned("sink panic")));
        }
        if self.intr > 0 && self.intr_budget > 0 && chance(self.intr, 16) {
            self.intr_budget -= 1;
            fired("sink EINTR");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut lim = usize::MAX;
        if let Some((at, e)) = &self.err {
            if self.err_hits == 0 || !self.transient {
                if self.out.len() >= *at {
                    self.err_hits += 1;
                    let n = e.name();
                    let e = e.make();
                    count("sink error", 1);
                    ev(n, self.out.len() as u64, 1);
                    return Err(e);
                }
                lim = at - self.out.len();
            } else {
                self.after_err += 1;
            }
        }
        if let Some(z) = self.zero_at {
            if self.out.len() >= z {
                self.zeros += 1;
                fired("sink accepts nothing");
                return Ok(0);
            }
            lim = lim.min(z - self.out.len());
        }
        let n = self.chunks.next(self.out.len(), b.len().min(lim));
        self.out.extend_from_slice(&b[..n]);
        if n < b.len() {
            count("sink short write", 1);
        }
        ev("write", b.len() as u64, n as u64);
        Ok(n)
    }
}
impl Write for SimSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        crate::step::paused(|| alloc::unscope(|| self.go(b)))
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}
