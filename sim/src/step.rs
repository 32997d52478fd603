//! Instruction-level simulation: while stepping is on, the processor traps after every machine instruction of the
//! running task and the simulator may act there (change a shared atomic, hand the baton to another task). Where it
//! acts is planned from the tape beforehand, so a run is a pure function of the tape.
use crate::alloc::IN_ALLOC;
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PAUSE: Cell<u32> = const { Cell::new(0) };
}
static mut HOOK: Option<*mut dyn FnMut()> = None;
static mut STEPS: u64 = 0;

#[repr(C)]
struct SigAction {
    handler: usize,
    flags: u64,
    restorer: usize,
    mask: u64,
}
extern "C" {
    static __executable_start: u8;
    static etext: u8;
    fn sigaction(sig: i32, act: *const LibcSigAction, old: *mut LibcSigAction) -> i32;
}
#[repr(C)]
struct LibcSigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SIGTRAP: i32 = 5;

unsafe extern "C" fn handler(_sig: i32, _info: *mut u8, ctx: *mut u8) {
    let efl = ctx.add(40 + 17 * 8) as *mut u64;
    if !ON.with(|c| c.get()) || PAUSE.with(|c| c.get()) > 0 {
        *efl &= !0x100;
        return;
    }
    if IN_ALLOC.with(|c| c.get()) {
        return;
    }
    // Only the program's own code counts: how libc copies memory depends on addresses.
    let rip = *(ctx.add(40 + 16 * 8) as *const u64) as usize;
    if rip < std::ptr::addr_of!(__executable_start) as usize || rip >= std::ptr::addr_of!(etext) as usize {
        return;
    }
    STEPS += 1;
    #[allow(static_mut_refs)]
    if let Some(h) = HOOK {
        (*h)();
    }
}
pub fn install() {
    unsafe {
        let a = LibcSigAction { handler: handler as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
        assert_eq!(sigaction(SIGTRAP, &a, std::ptr::null_mut()), 0, "sim: sigaction");
    }
}
#[inline(always)]
fn set_tf() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[inline(always)]
fn clear_tf() {
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}
struct Unpause;
impl Drop for Unpause {
    fn drop(&mut self) {
        let n = PAUSE.with(|c| {
            c.set(c.get() - 1);
            c.get()
        });
        if n == 0 && ON.with(|c| c.get()) {
            set_tf();
        }
    }
}
/// Runs simulator code with stepping suspended.
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    if !ON.with(|c| c.get()) {
        return f();
    }
    PAUSE.with(|c| c.set(c.get() + 1));
    clear_tf();
    let _g = Unpause;
    f()
}
struct Stop;
impl Drop for Stop {
    fn drop(&mut self) {
        ON.with(|c| c.set(false));
        clear_tf();
    }
}
/// Sets what happens after each instruction of every stepping task.
pub fn with_hook<R>(hook: &mut dyn FnMut(), f: impl FnOnce() -> R) -> R {
    unsafe {
        STEPS = 0;
        HOOK = Some(std::mem::transmute::<*mut dyn FnMut(), *mut dyn FnMut()>(hook as *mut dyn FnMut()));
        let r = f();
        HOOK = None;
        r
    }
}
/// Steps through `f` on this thread.
pub fn stepped<R>(f: impl FnOnce() -> R) -> R {
    ON.with(|c| c.set(true));
    let _s = Stop;
    set_tf();
    f()
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
