//! Choice tape, deterministic PRNG, event trace and shared (crash-surviving) state.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

/// Shared with the parent process through a MAP_SHARED file so that it survives a crash of the worker.
pub const TAPE_MAX: usize = 1 << 18;
#[repr(C)]
pub struct Shared {
    pub magic: u64,
    pub case_index: AtomicU64,
    pub heartbeat: AtomicU64,
    pub tape_len: AtomicU32,
    pub note_len: AtomicU32,
    pub note: [u8; 256],
    pub tape: [u32; TAPE_MAX],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
pub fn set_shared(p: *mut Shared) {
    unsafe { SHARED = p }
}
pub fn shared() -> Option<&'static mut Shared> {
    unsafe {
        if SHARED.is_null() {
            None
        } else {
            Some(&mut *SHARED)
        }
    }
}
/// Leaves a short explanation for the parent just before a deliberate `_exit`; allocation free.
pub fn crash_note(parts: &[&[u8]]) {
    if let Some(s) = shared() {
        let mut n = 0;
        for p in parts {
            for &b in *p {
                if n < 256 {
                    s.note[n] = b;
                    n += 1;
                }
            }
        }
        s.note_len.store(n as u32, Ordering::SeqCst);
    }
}
pub fn num(buf: &mut [u8; 20], mut v: u64) -> &[u8] {
    let mut i = 20;
    loop {
        i -= 1;
        buf[i] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    &buf[i..]
}

/// Every random decision of a run is one draw from the tape. A draw of 0 is always the simplest choice.
pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pub pos: usize,
    pub rec: Vec<u32>,
    mirror: bool,
}
impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, rec: Vec::new(), mirror: true }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Tape { rng: None, replay: v, pos: 0, rec: Vec::new(), mirror: true }
    }
    pub fn below(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = match self.rng {
            Some(ref mut r) => (r.next() % n as u64) as u32,
            None => self.replay.get(self.pos).map(|&v| if v < n { v } else { v % n }).unwrap_or(0),
        };
        self.pos += 1;
        if self.mirror {
            if let Some(s) = shared() {
                let i = self.rec.len();
                if i < TAPE_MAX {
                    s.tape[i] = v;
                    s.tape_len.store(i as u32 + 1, Ordering::Relaxed);
                }
            }
        }
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; a draw of 0 is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u32) as usize;
        &v[i]
    }
    pub fn u64(&mut self) -> u64 {
        (self.below(u32::MAX) as u64) << 32 | self.below(u32::MAX) as u64
    }
}

/// One recorded event. `code` names what happened, `a` and `b` are its numbers.
#[derive(Clone, Copy)]
pub struct Ev(pub &'static str, pub u64, pub u64);

pub struct Trace {
    pub hash: u64,
    pub steps: u64,
    pub keep: bool,
    pub evs: Vec<String>,
}
impl Trace {
    pub fn new(keep: bool) -> Self {
        Trace { hash: 0x1234, steps: 0, keep, evs: Vec::new() }
    }
    pub fn ev(&mut self, name: &'static str, a: u64, b: u64) {
        self.steps += 1;
        let mut h = self.hash;
        for &c in name.as_bytes() {
            h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
        }
        h = mix(h, a);
        h = mix(h, b);
        self.hash = h;
        if self.keep && self.evs.len() < 4000 {
            self.evs.push(format!("{} {} {}", name, a, b));
        }
    }
    pub fn text(&mut self, f: impl FnOnce() -> String) {
        if self.keep && self.evs.len() < 4000 {
            self.evs.push(f());
        }
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    h
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 96 {
            s.push_str(&format!("..(+{} bytes)", b.len() - 96));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// What one run observed, accumulated over a worker's runs.
#[derive(Default, Clone)]
pub struct Stats {
    pub counts: std::collections::BTreeMap<&'static str, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
}

/// Everything one simulated run owns. One run at a time per process; inside a run exactly one simulated task runs at
/// a time, so the single owner is whoever holds the baton.
pub struct World {
    pub tape: Tape,
    pub tr: Trace,
    pub st: Stats,
    pub disk: crate::os::Disk,
    pub now: u64,
    pub panic_text: Option<String>,
    pub thorough: bool,
    /// A control run: the same workload without the conditions under test, to attribute a failure.
    pub control: bool,
    /// What happens between a decode's return and the first look at its value.
    pub after: Option<Box<dyn FnOnce()>>,
    /// The parts of the value under inspection which may borrow.
    pub parts: Option<Vec<Part>>,
}
/// A slice inside a decoded value.
#[derive(Clone, Debug)]
pub struct Part {
    pub at: usize,
    pub len: usize,
    pub align: usize,
    pub owned: bool,
    /// The elements are stored as they are encoded.
    pub raw: bool,
    /// What it holds, if it owns it.
    pub copy: Vec<u8>,
}
pub fn part<T>(x: &[T], owned: bool, raw: bool) {
    if has_world() {
        if let Some(v) = &mut w().parts {
            let (at, len) = (x.as_ptr() as usize, std::mem::size_of_val(x));
            let copy = if owned && raw && len > 0 { unsafe { std::slice::from_raw_parts(at as *const u8, len) }.to_vec() } else { vec![] };
            v.push(Part { at, len, align: std::mem::align_of::<T>(), owned, raw, copy });
        }
    }
}
static mut WORLD: *mut World = std::ptr::null_mut();
pub fn set_world(p: *mut World) {
    unsafe { WORLD = p }
}
pub fn has_world() -> bool {
    unsafe { !WORLD.is_null() }
}
pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn below(n: u32) -> u32 {
    crate::step::paused(|| w().tape.below(n))
}
pub fn chance(a: u32, b: u32) -> bool {
    crate::step::paused(|| w().tape.chance(a, b))
}
pub fn range(a: u32, b: u32) -> u32 {
    crate::step::paused(|| w().tape.range(a, b))
}
pub fn ev(name: &'static str, a: u64, b: u64) {
    crate::step::paused(|| w().tr.ev(name, a, b))
}
pub fn note(f: impl FnOnce() -> String) {
    crate::step::paused(|| w().tr.text(f))
}
/// A fault or rare condition that actually happened.
pub fn fired(k: &'static str) {
    crate::step::paused(|| {
        w().st.add(k, 1);
        w().tr.ev(k, 0, 0);
    })
}
pub fn count(k: &'static str, n: u64) {
    crate::step::paused(|| w().st.add(k, n))
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
/// The payload of panics planned by the simulator in user code.
pub struct Planned(pub &'static str);
