//! The simulated operating system: libc symbols of the simulator binary are defined here, so the standard library and
//! speedy's own `extern "C"` declarations resolve to them. Paths under /simfs/ live on an in-memory disk with planned
//! faults; everything else goes to the kernel unchanged.
use crate::alloc;
use crate::base::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub const ROOT: &str = "/simfs/";
pub fn spot(name: &str) -> String {
    format!("{}{}", ROOT, name)
}
const FD_BASE: i32 = 1_000_000;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const ENOENT: i32 = 2;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EDQUOT: i32 = 122;
pub const ENODEV: i32 = 19;
pub const EAGAIN: i32 = 11;

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub data: Vec<u8>,
    /// What would survive a power loss.
    pub durable: Vec<u8>,
    pub dir: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Stat,
    Mmap,
    Madvise,
    Read,
    Write,
    Close,
    Sync,
    Trunc,
    Munmap,
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub op: Op,
    /// Which call of that kind fails (counted from 0).
    pub at: u64,
    pub errno: i32,
    /// A condition that stays (disk full) instead of a single failure.
    pub sticky: bool,
}
#[derive(Clone, Debug)]
struct OpenFile {
    path: String,
    pos: usize,
    append: bool,
    write: bool,
    read: bool,
    open: bool,
}
#[derive(Clone, Debug)]
pub struct Map {
    pub addr: usize,
    pub len: usize,
    real: usize,
    pub mapped: bool,
}
#[derive(Default)]
pub struct Disk {
    pub nodes: BTreeMap<String, Node>,
    fds: Vec<OpenFile>,
    pub maps: Vec<Map>,
    pub faults: Vec<Fault>,
    calls: [u64; 10],
    /// Bytes that still fit; None is unlimited.
    pub space: Option<usize>,
    /// Upper limit for one transfer, drawn per call when `short` is set.
    pub short: bool,
    pub intr: u32,
    /// Ledger violations.
    pub wrong: Vec<String>,
    /// Disk contents after each mutating call, for crash points.
    pub history: Vec<BTreeMap<String, Node>>,
    pub keep_history: bool,
    pub injected: Vec<(Op, i32)>,
    pub syscalls: u64,
}
impl Disk {
    pub fn put(&mut self, name: &str, data: Vec<u8>) -> String {
        let p = format!("{}{}", ROOT, name);
        self.nodes.insert(p.clone(), Node { durable: data.clone(), data, dir: false });
        p
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        self.nodes.get(path).map(|n| &n.data[..])
    }
    pub fn calls_of(&self, op: Op) -> u64 {
        self.calls[op as usize]
    }
    pub fn total_calls(&self) -> u64 {
        self.syscalls
    }
    pub fn reset_calls(&mut self) {
        self.calls = [0; 10];
        self.syscalls = 0;
        self.injected.clear();
        self.faults.clear();
    }
    /// Whatever is still open or mapped, and every release that was wrong.
    pub fn audit(&self) -> Result<(), String> {
        if let Some(s) = self.wrong.first() {
            return Err(s.clone());
        }
        for (i, f) in self.fds.iter().enumerate() {
            if f.open {
                return Err(format!("descriptor {} of {} was never closed", i as i32 + FD_BASE, f.path));
            }
        }
        for m in &self.maps {
            if m.mapped {
                return Err(format!("a mapping of {} bytes was never unmapped", m.len));
            }
        }
        Ok(())
    }
    pub fn cleanup(&mut self) {
        for m in self.maps.drain(..) {
            unsafe {
                sys6(11, m.addr as u64, m.real as u64, 0, 0, 0, 0);
            }
        }
    }
    fn step(&mut self, op: Op) -> Result<(), i32> {
        let n = self.calls[op as usize];
        self.calls[op as usize] += 1;
        self.syscalls += 1;
        ev(op_name(op), n, 0);
        let mut hit = None;
        for f in &self.faults {
            if f.op == op && (f.at == n || (f.sticky && f.at <= n)) {
                hit = Some(f.errno);
            }
        }
        if let Some(e) = hit {
            self.injected.push((op, e));
            fired(fault_name(op, e));
            return Err(e);
        }
        if self.intr > 0 && matches!(op, Op::Open | Op::Read | Op::Write) && chance(self.intr, 16) {
            fired("disk EINTR");
            return Err(EINTR);
        }
        Ok(())
    }
    fn snapshot(&mut self) {
        if self.keep_history && self.history.len() < 400 {
            let s = self.nodes.clone();
            self.history.push(s);
        }
    }
}
fn op_name(op: Op) -> &'static str {
    match op {
        Op::Open => "sys open",
        Op::Stat => "sys stat",
        Op::Mmap => "sys mmap",
        Op::Madvise => "sys madvise",
        Op::Read => "sys read",
        Op::Write => "sys write",
        Op::Close => "sys close",
        Op::Sync => "sys sync",
        Op::Trunc => "sys truncate",
        Op::Munmap => "sys munmap",
    }
}
fn fault_name(op: Op, e: i32) -> &'static str {
    match (op, e) {
        (Op::Open, EMFILE) => "disk open EMFILE",
        (Op::Open, EACCES) => "disk open EACCES",
        (Op::Open, _) => "disk open error",
        (Op::Stat, _) => "disk stat error",
        (Op::Mmap, ENOMEM) => "disk mmap ENOMEM",
        (Op::Mmap, _) => "disk mmap error",
        (Op::Madvise, _) => "disk madvise error",
        (Op::Read, _) => "disk read error",
        (Op::Write, ENOSPC) => "disk write ENOSPC",
        (Op::Write, _) => "disk write error",
        (Op::Close, _) => "disk close error",
        (Op::Sync, _) => "disk sync error",
        (Op::Trunc, _) => "disk truncate error",
        (Op::Munmap, _) => "disk munmap error",
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
pub unsafe fn sys6(n: u64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n as i64 => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}
unsafe fn cstr(p: *const u8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
unsafe fn sim_path(p: *const u8) -> Option<String> {
    if p.is_null() || !has_world() {
        return None;
    }
    let s = cstr(p);
    if s.starts_with(ROOT.as_bytes()) {
        Some(String::from_utf8_lossy(s).into_owned())
    } else {
        None
    }
}
fn is_sim(fd: i32) -> bool {
    fd >= FD_BASE && has_world()
}
fn d() -> &'static mut Disk {
    &mut w().disk
}
/// Simulator code called from library code: unmetered.
fn sim<R>(f: impl FnOnce() -> R) -> R {
    crate::step::paused(|| alloc::unscope(f))
}

const O_ACCMODE: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

unsafe fn do_open(path: String, flags: i32) -> i64 {
    let k = d();
    if let Err(e) = k.step(Op::Open) {
        return fail(e);
    }
    let write = flags & O_ACCMODE != 0;
    let read = flags & O_ACCMODE != 1;
    match k.nodes.get_mut(&path) {
        None => {
            if flags & O_CREAT == 0 {
                return fail(ENOENT);
            }
            k.nodes.insert(path.clone(), Node { data: vec![], durable: vec![], dir: false });
            k.snapshot();
        }
        Some(n) => {
            if n.dir && write {
                return fail(EISDIR);
            }
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return fail(17);
            }
            if flags & O_TRUNC != 0 && write && !n.data.is_empty() {
                n.data.clear();
                k.snapshot();
            }
        }
    }
    k.fds.push(OpenFile { path, pos: 0, append: flags & O_APPEND != 0, write, read, open: true });
    (FD_BASE + k.fds.len() as i32 - 1) as i64
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(p) = sim(|| sim_path(path)) {
        return sim(|| do_open(p, flags)) as i32;
    }
    ret(sys6(2, path as u64, flags as u64, mode as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(p) = sim(|| sim_path(path)) {
        return sim(|| do_open(p, flags)) as i32;
    }
    ret(sys6(257, dir as u64, path as u64, flags as u64, mode as u64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    openat64(dir, path, flags, mode)
}
fn file(fd: i32, what: &str) -> Option<&'static mut OpenFile> {
    let k = d();
    match k.fds.get_mut((fd - FD_BASE) as usize) {
        Some(f) if f.open => Some(f),
        _ => {
            let s = format!("{} on descriptor {} which is not open", what, fd);
            k.wrong.push(s);
            None
        }
    }
}
unsafe fn do_read(fd: i32, out: *mut u8, n: usize, at: Option<usize>) -> i64 {
    let f = match file(fd, "read") {
        Some(f) => f,
        None => return fail(EBADF),
    };
    let k = d();
    if let Err(e) = k.step(Op::Read) {
        return fail(e);
    }
    if !f.read {
        return fail(EBADF);
    }
    let node = match k.nodes.get(&f.path) {
        Some(n) => n,
        None => return fail(EIO),
    };
    if node.dir {
        return fail(EISDIR);
    }
    let pos = at.unwrap_or(f.pos).min(node.data.len());
    let mut n = n.min(node.data.len() - pos);
    if k.short && n > 1 && chance(1, 2) {
        n = range(1, n.min(9000) as u32) as usize;
        fired("disk short read");
    }
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(pos), out, n);
    if at.is_none() {
        f.pos = pos + n;
    }
    n as i64
}
unsafe fn do_write(fd: i32, b: &[u8], at: Option<usize>) -> i64 {
    let f = match file(fd, "write") {
        Some(f) => f,
        None => return fail(EBADF),
    };
    let k = d();
    if let Err(e) = k.step(Op::Write) {
        return fail(e);
    }
    if !f.write {
        return fail(EBADF);
    }
    let mut n = b.len();
    if k.short && n > 1 && chance(1, 2) {
        n = range(1, n.min(9000) as u32) as usize;
        fired("disk short write");
    }
    let node = match k.nodes.get_mut(&f.path) {
        Some(n) => n,
        None => return fail(EIO),
    };
    let mut pos = at.unwrap_or(f.pos);
    if f.append {
        pos = node.data.len();
    }
    if let Some(space) = k.space {
        let used = pos;
        if n > 0 && used >= space {
            k.injected.push((Op::Write, ENOSPC));
            fired("disk full");
            return fail(ENOSPC);
        }
        if used + n > space {
            n = space - used;
            fired("disk full after a partial write");
        }
    }
    if node.data.len() < pos + n {
        node.data.resize(pos + n, 0);
    }
    node.data[pos..pos + n].copy_from_slice(&b[..n]);
    if at.is_none() {
        f.pos = pos + n;
    }
    k.snapshot();
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, out: *mut u8, n: usize) -> isize {
    if is_sim(fd) {
        return sim(|| do_read(fd, out, n, None)) as isize;
    }
    ret(sys6(0, fd as u64, out as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, out: *mut u8, n: usize, off: i64) -> isize {
    if is_sim(fd) {
        return sim(|| do_read(fd, out, n, Some(off as usize))) as isize;
    }
    ret(sys6(17, fd as u64, out as u64, n as u64, off as u64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if is_sim(fd) {
        return sim(|| do_write(fd, std::slice::from_raw_parts(p, n), None)) as isize;
    }
    ret(sys6(1, fd as u64, p as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    if is_sim(fd) {
        return sim(|| do_write(fd, std::slice::from_raw_parts(p, n), Some(off as usize))) as isize;
    }
    ret(sys6(18, fd as u64, p as u64, n as u64, off as u64, 0, 0)) as isize
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if is_sim(fd) {
        return sim(|| {
            let mut all = Vec::new();
            for x in std::slice::from_raw_parts(v, n as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(x.base, x.len));
            }
            do_write(fd, &all, None)
        }) as isize;
    }
    ret(sys6(20, fd as u64, v as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
    if is_sim(fd) {
        for x in std::slice::from_raw_parts(v, n as usize) {
            if x.len > 0 {
                return sim(|| do_read(fd, x.base, x.len, None)) as isize;
            }
        }
        return 0;
    }
    ret(sys6(19, fd as u64, v as u64, n as u64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if is_sim(fd) {
        return sim(|| {
            let f = match file(fd, "seek") {
                Some(f) => f,
                None => return fail(EBADF),
            };
            let len = d().nodes.get(&f.path).map(|n| n.data.len()).unwrap_or(0) as i64;
            let p = match whence {
                0 => off,
                1 => f.pos as i64 + off,
                _ => len + off,
            };
            if p < 0 {
                return fail(EINVAL);
            }
            f.pos = p as usize;
            p
        });
    }
    ret(sys6(8, fd as u64, off as u64, whence as u64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if is_sim(fd) {
        return sim(|| {
            let f = match file(fd, "close") {
                Some(f) => f,
                None => return fail(EBADF),
            };
            f.open = false;
            match d().step(Op::Close) {
                Ok(()) => 0,
                // The descriptor is gone either way, as on Linux.
                Err(e) => fail(e),
            }
        }) as i32;
    }
    ret(sys6(3, fd as u64, 0, 0, 0, 0, 0)) as i32
}
unsafe fn fcntl_any(fd: i32, cmd: i32, arg: usize) -> i32 {
    if is_sim(fd) {
        // The standard library asks whether a descriptor it is about to close is open.
        let k = d();
        return match k.fds.get((fd - FD_BASE) as usize) {
            Some(f) if f.open => 0,
            _ => {
                k.wrong.push(format!("descriptor {} is used which is not open", fd));
                fail(EBADF) as i32
            }
        };
    }
    ret(sys6(72, fd as u64, cmd as u64, arg as u64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl_any(fd, cmd, arg)
}
unsafe fn stat_node(path: &str) -> Result<(u64, bool), i32> {
    match d().nodes.get(path) {
        Some(n) => Ok((if n.dir { 4096 } else { n.data.len() as u64 }, n.dir)),
        None => Err(ENOENT),
    }
}
unsafe fn do_stat(path: &str) -> Result<(u64, bool), i32> {
    d().step(Op::Stat)?;
    stat_node(path)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    let p = if is_sim(dir) {
        match sim(|| file(dir, "stat").map(|f| f.path.clone())) {
            Some(p) => Some(p),
            None => return fail(EBADF) as i32,
        }
    } else {
        sim(|| sim_path(path))
    };
    if let Some(p) = p {
        return sim(|| match do_stat(&p) {
            Ok((size, isdir)) => {
                std::ptr::write_bytes(out, 0, 256);
                (out as *mut u32).write_unaligned(0x7ff);
                (out.add(4) as *mut u32).write_unaligned(4096);
                (out.add(16) as *mut u32).write_unaligned(1);
                (out.add(28) as *mut u16).write_unaligned(if isdir { 0o040755 } else { 0o100644 });
                (out.add(32) as *mut u64).write_unaligned(1);
                (out.add(40) as *mut u64).write_unaligned(size);
                (out.add(48) as *mut u64).write_unaligned((size + 511) / 512);
                drop(p);
                0
            }
            Err(e) => fail(e) as i32,
        });
    }
    ret(sys6(332, dir as u64, path as u64, flags as u64, mask as u64, out as u64, 0)) as i32
}
unsafe fn fill_stat(out: *mut u8, size: u64, isdir: bool) {
    std::ptr::write_bytes(out, 0, 144);
    (out.add(8) as *mut u64).write_unaligned(1);
    (out.add(16) as *mut u64).write_unaligned(1);
    (out.add(24) as *mut u32).write_unaligned(if isdir { 0o040755 } else { 0o100644 });
    (out.add(48) as *mut u64).write_unaligned(size);
    (out.add(56) as *mut u64).write_unaligned(4096);
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, out: *mut u8) -> i32 {
    if is_sim(fd) {
        return sim(|| {
            let p = match file(fd, "stat") {
                Some(f) => f.path.clone(),
                None => return fail(EBADF) as i32,
            };
            match do_stat(&p) {
                Ok((n, isdir)) => {
                    fill_stat(out, n, isdir);
                    0
                }
                Err(e) => fail(e) as i32,
            }
        });
    }
    ret(sys6(5, fd as u64, out as u64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, out: *mut u8) -> i32 {
    fstat64(fd, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, out: *mut u8) -> i32 {
    if let Some(p) = sim(|| sim_path(path)) {
        return sim(|| match do_stat(&p) {
            Ok((n, isdir)) => {
                drop(p);
                fill_stat(out, n, isdir);
                0
            }
            Err(e) => fail(e) as i32,
        });
    }
    ret(sys6(4, path as u64, out as u64, 0, 0, 0, 0)) as i32
}
unsafe fn sync(fd: i32) -> i32 {
    sim(|| {
        let f = match file(fd, "fsync") {
            Some(f) => f,
            None => return fail(EBADF) as i32,
        };
        if let Err(e) = d().step(Op::Sync) {
            return fail(e) as i32;
        }
        if let Some(n) = d().nodes.get_mut(&f.path) {
            n.durable = n.data.clone();
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if is_sim(fd) {
        return sync(fd);
    }
    ret(sys6(74, fd as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if is_sim(fd) {
        return sync(fd);
    }
    ret(sys6(75, fd as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if is_sim(fd) {
        return sim(|| {
            let f = match file(fd, "truncate") {
                Some(f) => f,
                None => return fail(EBADF) as i32,
            };
            if let Err(e) = d().step(Op::Trunc) {
                return fail(e) as i32;
            }
            if let Some(n) = d().nodes.get_mut(&f.path) {
                n.data.resize(len as usize, 0);
            }
            d().snapshot();
            0
        });
    }
    ret(sys6(77, fd as u64, len as u64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const u8) -> i32 {
    if let Some(p) = sim(|| sim_path(path)) {
        return sim(|| {
            let r = d().nodes.remove(&p).is_some();
            drop(p);
            d().snapshot();
            if r {
                0
            } else {
                fail(ENOENT) as i32
            }
        });
    }
    ret(sys6(87, path as u64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    let (x, y) = sim(|| (sim_path(a), sim_path(b)));
    if let (Some(x), Some(y)) = (x, y) {
        return sim(|| match d().nodes.remove(&x) {
            Some(n) => {
                d().nodes.insert(y, n);
                drop(x);
                d().snapshot();
                0
            }
            None => fail(ENOENT) as i32,
        });
    }
    ret(sys6(82, a as u64, b as u64, 0, 0, 0, 0)) as i32
}
pub const PAGE: usize = 4096;
fn up(n: usize) -> usize {
    (n + PAGE - 1) / PAGE * PAGE
}
unsafe fn do_mmap(len: usize, prot: i32, fd: i32, off: i64) -> i64 {
    let f = match file(fd, "mmap") {
        Some(f) => f,
        None => return fail(EBADF),
    };
    if let Err(e) = d().step(Op::Mmap) {
        return fail(e);
    }
    if len == 0 {
        return fail(EINVAL);
    }
    let node = match d().nodes.get(&f.path) {
        Some(n) => n,
        None => return fail(EIO),
    };
    if node.dir {
        return fail(ENODEV);
    }
    if !f.read {
        return fail(EACCES);
    }
    let off = off as usize;
    let real = up(len) + PAGE;
    let p = sys6(9, 0, real as u64, 3, 0x22, u64::MAX, 0);
    if p < 0 {
        return fail(ENOMEM);
    }
    let have = node.data.len().saturating_sub(off).min(len);
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(off.min(node.data.len())), p as *mut u8, have);
    // Pages past the end of the file are not accessible, nor is the guard page.
    sys6(10, p as u64, up(len) as u64, prot as u64, 0, 0, 0);
    let ok = up(have.max(1));
    sys6(10, p as u64 + ok as u64, (real - ok) as u64, 0, 0, 0, 0);
    d().maps.push(Map { addr: p as usize, len, real, mapped: true });
    p
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    if is_sim(fd) {
        return sim(|| do_mmap(len, prot, fd, off)) as *mut u8;
    }
    ret(sys6(9, addr as u64, len as u64, prot as u64, flags as u64, fd as u64, off as u64)) as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    mmap64(addr, len, prot, flags, fd, off)
}
fn find_map(addr: usize) -> Option<usize> {
    if !has_world() {
        return None;
    }
    d().maps.iter().position(|m| addr >= m.addr && addr < m.addr + m.real)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(addr: *mut u8, len: usize) -> i32 {
    if let Some(i) = find_map(addr as usize) {
        return sim(|| {
            let m = d().maps[i].clone();
            if !m.mapped {
                let s = "a mapping was unmapped twice".to_string();
                d().wrong.push(s);
                return fail(EINVAL) as i32;
            }
            if m.addr != addr as usize || up(m.len) != up(len) {
                let s = format!("munmap of {} bytes at offset {} of a mapping of {} bytes", len, addr as usize - m.addr, m.len);
                d().wrong.push(s);
                return fail(EINVAL) as i32;
            }
            let _ = d().step(Op::Munmap);
            d().maps[i].mapped = false;
            // Kept inaccessible until the run is over: a later access faults.
            sys6(10, m.addr as u64, m.real as u64, 0, 0, 0, 0);
            0
        });
    }
    if has_world() && w().disk.maps.iter().any(|m| m.mapped) && MMAP_OWNER.load(Ordering::Relaxed) == 1 {
        // Inside a library file call nothing else is unmapped.
        sim(|| d().wrong.push(format!("munmap of {} bytes at an address that was never mapped", len)));
        return fail(EINVAL) as i32;
    }
    ret(sys6(11, addr as u64, len as u64, 0, 0, 0, 0)) as i32
}
static MMAP_OWNER: AtomicU64 = AtomicU64::new(0);
/// While set, every unmapping is the library's.
pub fn own_mappings(on: bool) {
    MMAP_OWNER.store(on as u64, Ordering::Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32 {
    if let Some(i) = find_map(addr as usize) {
        return sim(|| {
            let m = d().maps[i].clone();
            if !m.mapped || addr as usize + len > m.addr + up(m.len) {
                let s = format!("madvise of {} bytes outside of a mapping of {} bytes", len, m.len);
                d().wrong.push(s);
                return fail(ENOMEM) as i32;
            }
            match d().step(Op::Madvise) {
                Ok(()) => 0,
                Err(e) => fail(e) as i32,
            }
        });
    }
    ret(sys6(28, addr as u64, len as u64, advice as u64, 0, 0, 0)) as i32
}

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_COUNT: AtomicU64 = AtomicU64::new(0);
pub fn set_hash_seed(s: u64) {
    HASH_SEED.store(s, Ordering::SeqCst);
    HASH_COUNT.store(0, Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(out: *mut u8, n: usize, _flags: u32) -> isize {
    let mut r = Rng::new(mix(HASH_SEED.load(Ordering::SeqCst), HASH_COUNT.fetch_add(1, Ordering::SeqCst)));
    r.fill(std::slice::from_raw_parts_mut(out, n));
    n as isize
}

/// A read-only input buffer that ends exactly at an inaccessible page; `shift` moves its start off alignment.
pub struct Guarded {
    base: usize,
    real: usize,
    start: usize,
    len: usize,
}
impl Guarded {
    pub fn new(data: &[u8], shift: usize) -> Self {
        unsafe {
            let body = up(data.len() + shift + 1);
            let real = body + 2 * PAGE;
            let base = sys6(9, 0, real as u64, 3, 0x22, u64::MAX, 0);
            assert!(base > 0, "sim: out of memory");
            let base = base as usize;
            // Ends `shift` bytes before the guard page: 0 catches every overrun, others vary the alignment.
            let start = base + PAGE + body - shift - data.len();
            std::ptr::copy_nonoverlapping(data.as_ptr(), start as *mut u8, data.len());
            sys6(10, (base + PAGE) as u64, body as u64, 1, 0, 0, 0);
            sys6(10, base as u64, PAGE as u64, 0, 0, 0, 0);
            sys6(10, (base + PAGE + body) as u64, PAGE as u64, 0, 0, 0, 0);
            Guarded { base, real, start, len: data.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.start as *const u8, self.len) }
    }
    /// What stands in for the caller doing something else with the memory: it becomes inaccessible, or other bytes
    /// are stored there. Whoever asks for it guarantees that nothing may borrow from the buffer any more.
    pub fn recycle(at: (usize, usize), how: u32) {
        let page = at.0 & !(PAGE - 1);
        let size = at.0 + at.1 - page;
        unsafe {
            if how == 0 {
                sys6(10, page as u64, up(size) as u64, 0, 0, 0, 0);
            } else {
                sys6(10, page as u64, up(size) as u64, 3, 0, 0, 0);
                for i in 0..at.1 {
                    let p = (at.0 + i) as *mut u8;
                    p.write_volatile(if how == 1 { 0xEE } else { p.read_volatile().wrapping_add(1) });
                }
            }
        }
    }
    pub fn place(&self) -> (usize, usize) {
        (self.start, self.len)
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            sys6(11, self.base as u64, self.real as u64, 0, 0, 0, 0);
        }
    }
}
/// A writable buffer of exactly `len` bytes followed by an inaccessible page.
pub struct GuardedOut {
    base: usize,
    real: usize,
    start: usize,
    len: usize,
}
impl GuardedOut {
    pub fn new(len: usize) -> Self {
        unsafe {
            let body = up(len + 1);
            let real = body + PAGE;
            let base = sys6(9, 0, real as u64, 3, 0x22, u64::MAX, 0);
            assert!(base > 0, "sim: out of memory");
            let base = base as usize;
            sys6(10, (base + body) as u64, PAGE as u64, 0, 0, 0, 0);
            std::ptr::write_bytes(base as *mut u8, 0x5C, body);
            GuardedOut { base, real, start: base + body - len, len }
        }
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.start as *mut u8, self.len) }
    }
}
impl Drop for GuardedOut {
    fn drop(&mut self) {
        unsafe {
            sys6(11, self.base as u64, self.real as u64, 0, 0, 0, 0);
        }
    }
}
