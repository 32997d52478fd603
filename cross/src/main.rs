//! The simulator's workload and checks on other machines and in other builds: the same seeded runs, with the operating
//! system, the allocator and the threads left out.
#![allow(unknown_lints, dead_code, static_mut_refs, unused, unexpected_cfgs)]
#[macro_use]
#[path = "../../sim/src/types.rs"]
mod types;
#[macro_use]
#[path = "../../sim/src/api.rs"]
mod api;
#[path = "../../sim/src/base.rs"]
mod base;
#[path = "../../sim/src/custom.rs"]
mod custom;
#[path = "../../sim/src/model.rs"]
mod model;
#[path = "../../sim/src/props.rs"]
mod props;
#[path = "../../sim/src/props_scripts.rs"]
mod props_scripts;
#[path = "../../sim/src/props_user.rs"]
mod props_user;
#[path = "../../sim/src/stream.rs"]
mod stream;

/// An interpreter is slow: values of a few elements only.
pub const SMALL: bool = true;
/// The interpreter knows itself what was never written.
#[cfg(not(miri))]
#[path = "../../sim/src/alloc.rs"]
mod alloc;
#[cfg(not(miri))]
#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;
#[cfg(miri)]
mod alloc {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Meter {
        pub peak: i64,
        pub live: i64,
        pub count: u64,
    }
    pub fn stale(_: u8) {}
    pub fn fresh() -> u8 {
        0
    }
    pub fn scope<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn unscope<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn reset() {}
    pub fn meter() -> Meter {
        Default::default()
    }
}
mod step {
    pub fn paused<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
}
mod sched {
    pub struct Abort;
    pub fn yield_now() {}
}
/// Plain memory, and real files in a scratch directory.
mod os {
    pub const EIO: i32 = 5;
    #[derive(Default)]
    pub struct Disk {
        pub space: Option<u64>,
        last: Vec<u8>,
    }
    pub fn dir() -> String {
        std::env::var("CROSS_DIR").unwrap_or_else(|_| ".".into())
    }
    pub fn spot(name: &str) -> String {
        format!("{}/{}-{}", dir(), name, std::process::id())
    }
    impl Disk {
        pub fn put(&mut self, name: &str, data: Vec<u8>) -> String {
            let p = spot(name);
            std::fs::write(&p, data).expect("sim: scratch file");
            p
        }
        pub fn get(&mut self, path: &str) -> Option<&[u8]> {
            self.last = std::fs::read(path).ok()?;
            Some(&self.last)
        }
    }
    pub struct Guarded(Vec<u128>, usize, usize);
    impl Guarded {
        pub fn new(data: &[u8], shift: usize) -> Self {
            let mut v = vec![0u128; (data.len() + shift) / 16 + 1];
            let b = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 16) };
            b[shift..shift + data.len()].copy_from_slice(data);
            Guarded(v, shift, data.len())
        }
        pub fn bytes(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts((self.0.as_ptr() as *const u8).add(self.1), self.2) }
        }
    }
    pub struct GuardedOut(Vec<u8>);
    impl GuardedOut {
        pub fn new(len: usize) -> Self {
            GuardedOut(vec![0x5C; len])
        }
        pub fn bytes(&mut self) -> &mut [u8] {
            &mut self.0
        }
    }
}

mod work;
#[cfg(not(miri))]
mod drive;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("work") => work::work(&a[1..]),
        Some("try") => work::tried(&a[1..]),
        #[cfg(not(miri))]
        Some("check") => drive::check(),
        #[cfg(not(miri))]
        Some("replay") => drive::replay(&a[1]),
        _ => {
            eprintln!("usage: cross check | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
