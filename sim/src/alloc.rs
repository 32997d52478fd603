//! Global allocator under simulator control: fresh memory is poisoned, freed memory is poisoned, every block carries
//! a header and a trailing canary (layout mismatch, double free and overrun are caught at the free), and allocations
//! made by the library while a decode or encode is in progress are metered per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

const MAGIC: u64 = 0x5AFE_B10C_5AFE_B10C;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u64 = 0xC0FF_EE11_C0FF_EE22;
pub static FRESH: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0xA5);
pub fn fresh() -> u8 {
    FRESH.load(std::sync::atomic::Ordering::Relaxed)
}
pub const FREED: u8 = 0xDD;
const ABSURD: usize = 1 << 30;

#[repr(C)]
struct Head {
    magic: u64,
    size: u64,
    align: u32,
    scoped: u32,
    off: u64,
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    pub static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn _exit(code: i32) -> !;
}
pub fn die(parts: &[&[u8]], code: i32) -> ! {
    crate::base::crash_note(parts);
    unsafe { _exit(code) }
}

#[inline]
fn off_for(align: usize) -> usize {
    let h = std::mem::size_of::<Head>();
    if align <= 16 {
        32
    } else {
        (h + align - 1) / align * align
    }
}

fn enter() -> bool {
    IN_ALLOC.try_with(|c| c.replace(true)).unwrap_or(true)
}
fn leave(prev: bool) {
    let _ = IN_ALLOC.try_with(|c| c.set(prev));
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let scoped = DEPTH.try_with(|d| d.get()).unwrap_or(0);
        if l.size() >= ABSURD {
            if scoped != 0 {
                let mut b = [0; 20];
                die(&[b"absurd-allocation: the library asked for ", crate::base::num(&mut b, l.size() as u64), b" bytes"], 78);
            }
            return std::ptr::null_mut();
        }
        let prev = enter();
        let off = off_for(l.align());
        let al = l.align().max(16);
        let p = System.alloc(Layout::from_size_align_unchecked(off + l.size() + 8, al));
        leave(prev);
        if p.is_null() {
            return p;
        }
        let u = p.add(off);
        let h = u.sub(32) as *mut Head;
        *h = Head { magic: MAGIC, size: l.size() as u64, align: l.align() as u32, scoped: (scoped != 0) as u32, off: off as u64 };
        (u.add(l.size()) as *mut u64).write_unaligned(CANARY);
        // Poison at most 1 MiB: enough to expose unwritten memory, cheap enough for hostile lengths.
        std::ptr::write_bytes(u, fresh(), l.size().min(1 << 20));
        if scoped != 0 {
            let live = LIVE.with(|c| {
                c.set(c.get() + l.size() as i64);
                c.get()
            });
            PEAK.with(|c| c.set(c.get().max(live)));
            COUNT.with(|c| c.set(c.get() + 1));
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(32) as *mut Head;
        let hd = &mut *h;
        if hd.magic != MAGIC {
            die(&[if hd.magic == DEAD { b"heap: double free" as &[u8] } else { b"heap: free of a block that was not allocated or header overwritten" }], 77);
        }
        if hd.size != l.size() as u64 || hd.align != l.align() as u32 {
            die(&[b"heap: block freed with a different layout than it was allocated with"], 77);
        }
        if (u.add(l.size()) as *const u64).read_unaligned() != CANARY {
            die(&[b"heap: write past the end of a block"], 77);
        }
        hd.magic = DEAD;
        if hd.scoped != 0 {
            LIVE.try_with(|c| c.set(c.get() - l.size() as i64)).ok();
        }
        std::ptr::write_bytes(u, FREED, l.size().min(4096));
        let off = hd.off as usize;
        let prev = enter();
        System.dealloc(u.sub(off), Layout::from_size_align_unchecked(off + l.size() + 8, l.align().max(16)));
        leave(prev);
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Meter {
    pub peak: i64,
    pub live: i64,
    pub count: u64,
}

struct Off(u32);
impl Drop for Off {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(self.0));
    }
}
/// Decides what never written memory reads as, on the heap and on the stack below the caller.
pub fn stale(b: u8) {
    FRESH.store(b, std::sync::atomic::Ordering::Relaxed);
    #[inline(never)]
    fn stack(b: u8) {
        let mut a = [0u8; 48 << 10];
        a.fill(b);
        std::hint::black_box(&mut a);
    }
    stack(b)
}
/// Runs `f` with metering on.
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    let prev = DEPTH.with(|d| d.replace(1));
    let _o = Off(prev);
    f()
}
/// Runs simulator code called back from inside the library with metering off.
pub fn unscope<R>(f: impl FnOnce() -> R) -> R {
    let prev = DEPTH.with(|d| d.replace(0));
    let _o = Off(prev);
    f()
}
pub fn reset() {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
}
pub fn meter() -> Meter {
    Meter { peak: PEAK.with(|c| c.get()), live: LIVE.with(|c| c.get()), count: COUNT.with(|c| c.get()) }
}
