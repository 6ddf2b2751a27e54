//! The system-call and allocator seam.
//!
//! The libc entry points std uses are defined here, in the executable, and take precedence
//! over libc's. Calls made by library code on the run's scratch files consult the fault plan;
//! everything else goes straight to the kernel.

use crate::tape;
use crate::world::{ev, in_lib, outside, probe, sh, violate, Ev};
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::Relaxed};

pub fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
            options(nostack));
    }
    r
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn raw_exit(code: i32) -> ! {
    raw6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    unsafe { libc::abort() }
}
pub fn raw_write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = raw6(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

// ---------------------------------------------------------------- fault plan

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Read,
    Write,
    Mkdir,
    Seek,
    /// renaming, resizing and flushing files
    Meta,
    /// asking for a file's size and type
    Stat,
}

#[derive(Clone, Copy, Debug)]
pub struct Hard {
    pub op: Op,
    /// 0-based among the calls of this kind
    pub nth: u32,
    pub errno: i32,
    /// how many calls in a row fail (u32::MAX: for ever)
    pub times: u32,
}

pub const MAX_FIRED: usize = 64;

pub struct Fs {
    pub active: bool,
    /// chance (of 16) of EINTR before an open/read/write
    pub eintr: u64,
    /// chance (of 16) of a short read/write
    pub short: u64,
    pub hard: [Option<Hard>; 4],
    /// bytes the disk still takes (u64::MAX: unlimited)
    pub capacity: u64,
    /// the process is killed at the n-th call on scratch files
    pub crash_at: u64,
    /// files look like pipes: of no size, and without positions
    pub pipe: bool,
    /// how many questions about files failed (no failure of reading or writing)
    pub unknown: u32,
    /// another process creates the folder just before a mkdir
    pub mkdir_race: bool,
    /// run once, after the n-th read: change the file at this path
    pub grow_after: Option<(u32, &'static str, &'static [u8])>,
    pub truncate_after: Option<(u32, &'static str, u64)>,

    pub calls: u64,
    pub counts: [u32; 7],
    pub eintr_run: u32,
    pub fired: [Option<(Op, i32)>; MAX_FIRED],
    pub nfired: usize,
    pub open_fds: [bool; 1024],
    /// the end of what was read of any file
    pub read_high: u64,
    pub bytes_written: u64,
    pub changed: bool,
}

static mut FS: Fs = Fs::new();
pub fn fs() -> &'static mut Fs {
    #[allow(static_mut_refs)]
    unsafe {
        &mut FS
    }
}

impl Fs {
    pub const fn new() -> Self {
        Self {
            active: false,
            eintr: 0,
            short: 0,
            hard: [None; 4],
            capacity: u64::MAX,
            crash_at: u64::MAX,
            pipe: false,
            unknown: 0,
            mkdir_race: false,
            grow_after: None,
            truncate_after: None,
            calls: 0,
            counts: [0; 7],
            eintr_run: 0,
            fired: [None; MAX_FIRED],
            nfired: 0,
            open_fds: [false; 1024],
            read_high: 0,
            bytes_written: 0,
            changed: false,
        }
    }
    pub fn fire(&mut self, op: Op, errno: i32) {
        if self.nfired < MAX_FIRED {
            self.fired[self.nfired] = Some((op, errno));
        }
        self.nfired += 1;
    }
    pub fn last_fired(&self) -> Option<(Op, i32)> {
        if self.nfired == 0 {
            None
        } else {
            self.fired[(self.nfired - 1).min(MAX_FIRED - 1)]
        }
    }
    pub fn open_count(&self) -> usize {
        self.open_fds.iter().filter(|b| **b).count()
    }
}

fn crash_check(f: &mut Fs) {
    f.calls += 1;
    if f.calls > f.crash_at {
        ev(Ev::Crash, f.calls, 0);
        raw_exit(77);
    }
}
/// Decides whether this call fails outright.
fn hard_fault(f: &mut Fs, op: Op) -> Option<i32> {
    let n = f.counts[op as usize];
    f.counts[op as usize] += 1;
    for h in f.hard.into_iter().flatten() {
        if h.op == op && n >= h.nth && (n - h.nth) < h.times {
            if op == Op::Stat {
                f.unknown += 1;
            } else {
                f.fire(op, h.errno);
            }
            ev(Ev::SysErr, op as u64, h.errno as u64);
            return Some(h.errno);
        }
    }
    None
}
fn eintr_fault(f: &mut Fs) -> bool {
    if f.eintr > 0 && f.eintr_run < 4 && tape::chance(f.eintr, 16) {
        f.eintr_run += 1;
        ev(Ev::SysEintr, 0, 0);
        return true;
    }
    f.eintr_run = 0;
    false
}
fn short_len(f: &mut Fs, n: usize) -> usize {
    if f.short > 0 && n > 1 && tape::chance(f.short, 16) {
        tape::urange(1, n - 1)
    } else {
        n
    }
}
unsafe fn scratch_path(p: *const c_char) -> bool {
    !p.is_null() && *p != b'/' as c_char && fs().active && in_lib()
}
fn sim_fd(fd: c_int) -> bool {
    fd >= 0 && (fd as usize) < 1024 && in_lib() && fs().active && fs().open_fds[fd as usize]
}
fn change_file(f: &mut Fs) {
    if let Some((n, path, add)) = f.grow_after {
        if f.counts[Op::Read as usize] > n {
            f.grow_after = None;
            f.changed = true;
            ev(Ev::SysGrow, add.len() as u64, 0);
            let fd = raw_open(path, libc::O_WRONLY | libc::O_APPEND);
            raw_write_all(fd, add);
            raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
        }
    }
    if let Some((n, path, len)) = f.truncate_after {
        if f.counts[Op::Read as usize] > n {
            f.truncate_after = None;
            f.changed = true;
            ev(Ev::SysGrow, len, 1);
            let fd = raw_open(path, libc::O_WRONLY);
            raw6(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0);
            raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
        }
    }
}
/// `path` must end with a NUL.
fn raw_open(path: &str, flags: c_int) -> i32 {
    raw6(libc::SYS_openat, libc::AT_FDCWD as usize, path.as_ptr() as usize, flags as usize, 0o644, 0, 0) as i32
}

// ---------------------------------------------------------------- interposed calls

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let kernel = |_| ret(raw6(libc::SYS_openat, dir as usize, path as usize, (flags | libc::O_CLOEXEC) as usize, mode as usize, 0, 0)) as c_int;
    if !scratch_path(path) {
        return ret(raw6(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    outside(|| {
        crate::sched::yield_point(1);
        let f = fs();
        crash_check(f);
        if eintr_fault(f) {
            set_errno(libc::EINTR);
            return -1;
        }
        if let Some(e) = hard_fault(f, Op::Open) {
            set_errno(e);
            return -1;
        }
        let fd = kernel(());
        ev(Ev::SysOpen, (flags & 0xfff) as u64, u64::from(fd < 0));
        if (0..1024).contains(&fd) {
            f.open_fds[fd as usize] = true;
        }
        fd
    })
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(dir, path, flags, mode)
}

unsafe fn faulty_read(fd: c_int, n: usize, kernel: impl Fn(usize) -> isize) -> isize {
    if !sim_fd(fd) {
        return ret(kernel(n));
    }
    outside(|| {
        crate::sched::yield_point(2);
        let f = fs();
        crash_check(f);
        if eintr_fault(f) {
            set_errno(libc::EINTR);
            return -1;
        }
        if let Some(e) = hard_fault(f, Op::Read) {
            set_errno(e);
            return -1;
        }
        change_file(f);
        let want = short_len(f, n);
        let r = ret(kernel(want));
        if want < n && r == want as isize {
            ev(Ev::SysShortRead, n as u64, r as u64);
        } else {
            ev(Ev::SysRead, n as u64, r as u64);
        }
        if r > 0 {
            let at = raw6(libc::SYS_lseek, fd as usize, 0, libc::SEEK_CUR as usize, 0, 0, 0);
            f.read_high = f.read_high.max(u64::try_from(at).unwrap_or(0));
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    faulty_read(fd, n, |k| raw6(libc::SYS_read, fd as usize, buf as usize, k, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    let r = faulty_read(fd, n, |k| raw6(libc::SYS_pread64, fd as usize, buf as usize, k, off as usize, 0, 0));
    if r > 0 && sim_fd(fd) {
        let f = fs();
        f.read_high = f.read_high.max((off + r as i64) as u64);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if !sim_fd(fd) || cnt == 0 {
        return ret(raw6(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0));
    }
    let v = &*iov;
    faulty_read(fd, v.iov_len, |k| raw6(libc::SYS_read, fd as usize, v.iov_base as usize, k, 0, 0, 0))
}

unsafe fn faulty_write(fd: c_int, n: usize, kernel: impl Fn(usize) -> isize) -> isize {
    if fd == 1 && in_lib() {
        violate(format_args!("stdout"), format_args!("the library wrote {n} bytes to standard output"));
    }
    if !sim_fd(fd) {
        return ret(kernel(n));
    }
    outside(|| {
        crate::sched::yield_point(3);
        let f = fs();
        crash_check(f);
        if eintr_fault(f) {
            set_errno(libc::EINTR);
            return -1;
        }
        if let Some(e) = hard_fault(f, Op::Write) {
            set_errno(e);
            return -1;
        }
        let mut want = short_len(f, n);
        if (want as u64) > f.capacity {
            want = f.capacity as usize;
        }
        if n > 0 && want == 0 {
            f.fire(Op::Write, libc::ENOSPC);
            ev(Ev::DiskFull, n as u64, 0);
            set_errno(libc::ENOSPC);
            return -1;
        }
        let r = ret(kernel(want));
        if want < n {
            ev(Ev::SysShortWrite, n as u64, r as u64);
        } else {
            ev(Ev::SysWrite, n as u64, r as u64);
        }
        if r > 0 {
            f.bytes_written += r as u64;
            if f.capacity != u64::MAX {
                f.capacity -= r as u64;
            }
        }
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    faulty_write(fd, n, |k| raw6(libc::SYS_write, fd as usize, buf as usize, k, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    faulty_write(fd, n, |k| raw6(libc::SYS_pwrite64, fd as usize, buf as usize, k, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if cnt == 0 || !(sim_fd(fd) || (fd == 1 && in_lib())) {
        return ret(raw6(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0));
    }
    let v = &*iov;
    faulty_write(fd, v.iov_len, |k| raw6(libc::SYS_write, fd as usize, v.iov_base as usize, k, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= 0 && (fd as usize) < 1024 && fs().open_fds[fd as usize] {
        if in_lib() {
            outside(|| {
                crate::sched::yield_point(4);
                crash_check(fs());
                ev(Ev::SysClose, 0, 0);
            });
        }
        fs().open_fds[fd as usize] = false;
    }
    ret(raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if sim_fd(fd) {
        let e = outside(|| {
            crate::sched::yield_point(5);
            let f = fs();
            crash_check(f);
            let e = if f.pipe { Some(libc::ESPIPE) } else { hard_fault(f, Op::Seek) };
            if e.is_none() {
                ev(Ev::SysSeek, off as u64, whence as u64);
            }
            e
        });
        if let Some(e) = e {
            set_errno(e);
            return -1;
        }
    }
    ret(raw6(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    let kernel = || ret(raw6(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0)) as c_int;
    if !scratch_path(path) {
        return kernel();
    }
    outside(|| {
        crate::sched::yield_point(6);
        let f = fs();
        crash_check(f);
        if let Some(e) = hard_fault(f, Op::Mkdir) {
            set_errno(e);
            return -1;
        }
        if f.mkdir_race && tape::chance(1, 2) {
            ev(Ev::MkdirRace, 0, 0);
            raw6(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0);
        }
        let r = kernel();
        ev(Ev::SysMkdir, u64::from(r < 0), 0);
        r
    })
}
unsafe fn meta(mine: bool, kernel: impl Fn() -> isize) -> c_int {
    if !mine {
        return ret(kernel()) as c_int;
    }
    outside(|| {
        crate::sched::yield_point(7);
        let f = fs();
        crash_check(f);
        if let Some(e) = hard_fault(f, Op::Meta) {
            set_errno(e);
            return -1;
        }
        let r = ret(kernel()) as c_int;
        ev(Ev::SysMeta, u64::from(r < 0), 0);
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    meta(scratch_path(a), || raw6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    meta(scratch_path(a), || raw6(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    meta(sim_fd(fd), || raw6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    meta(sim_fd(fd), || raw6(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    meta(sim_fd(fd), || raw6(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0))
}
/// Removing is a crash point, but never fails: it is what cleans up after a failure.
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if scratch_path(a) {
        outside(|| {
            crate::sched::yield_point(7);
            crash_check(fs());
            ev(Ev::SysMeta, 2, 0);
        });
    }
    ret(raw6(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let mine = if path.is_null() || *path == 0 { sim_fd(dir) } else { dir == libc::AT_FDCWD && scratch_path(path) };
    let kernel = || ret(raw6(libc::SYS_statx, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int;
    // (std looks whether the call exists with a null path)
    if !mine {
        return kernel();
    }
    outside(|| {
        crate::sched::yield_point(7);
        let f = fs();
        crash_check(f);
        if let Some(e) = hard_fault(f, Op::Stat) {
            set_errno(e);
            return -1;
        }
        let r = kernel();
        if r == 0 && f.pipe && u32::from((*buf).stx_mode) & libc::S_IFMT == libc::S_IFREG {
            (*buf).stx_mode = ((*buf).stx_mode & 0o7777) | libc::S_IFIFO as u16;
            (*buf).stx_size = 0;
        }
        ev(Ev::Stat, u64::from(r < 0), u64::from(f.pipe));
        r
    })
}
/// Kernel-side copies are refused for scratch files so that std falls back to read/write.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, fl: libc::c_uint) -> ssize_t {
    if in_lib() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw6(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, fl as usize))
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if in_lib() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(raw6(libc::SYS_sendfile, a as usize, b as usize, o as usize, n, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: libc::c_uint) -> ssize_t {
    // Randomness is the simulator's: one fixed stream per run.
    let s = std::slice::from_raw_parts_mut(buf.cast::<u8>(), n);
    let mut p = tape::Prng(0x5eed);
    for b in s {
        *b = p.next() as u8;
    }
    n as ssize_t
}
static FAKE_NS: AtomicI64 = AtomicI64::new(1_000_000_000);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if in_lib() {
        // Simulated time: one microsecond per look.
        let t = FAKE_NS.fetch_add(1000, Relaxed);
        (*ts).tv_sec = t / 1_000_000_000;
        (*ts).tv_nsec = t % 1_000_000_000;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if crate::sched::is_sim_thread() {
        outside(crate::sched::yield_now);
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if crate::sched::is_sim_thread() {
        outside(crate::sched::yield_now);
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && crate::sched::is_sim_thread() {
        return outside(|| crate::sched::futex(a as *const u32, b as c_int, c as u32, d != 0)) as c_long;
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, 0) as c_long;
    }
    ret(raw6(n, a, b, c, d, e, f)) as c_long
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static ALLOC_YIELD: AtomicBool = AtomicBool::new(false);

pub fn heap_now() -> usize {
    CUR.load(Relaxed)
}
pub fn heap_peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn heap_reset_peak() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
/// Any moment the heap exceeds `cap` bytes inside the library is a violation.
pub fn heap_cap(cap: usize) {
    CAP.store(cap, Relaxed);
}
pub fn alloc_yield(on: bool) {
    ALLOC_YIELD.store(on, Relaxed);
}
fn grew(n: usize, lib: bool) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
    }
    if c > CAP.load(Relaxed) && lib {
        violate(
            format_args!("over-allocation"),
            format_args!("an allocation of {n} bytes takes the heap to {c}, above the bound {}", CAP.load(Relaxed)),
        );
    }
}
/// Vector code steps to the next aligned address: in the finely instrumented build that would
/// let the heap's history decide how many branches run, so every block starts aligned.
fn aligned(l: Layout) -> Layout {
    if covrt::fine() {
        l.align_to(64).unwrap_or(l)
    } else {
        l
    }
}
/// The bookkeeping around every allocation; simulator code, so nothing in it is preempted
/// except at the one yield point.
fn before(grow: usize, shrink: usize, yields: bool) {
    let d = covrt::set_depth(0);
    if d > 0 && yields && ALLOC_YIELD.load(Relaxed) {
        crate::sched::yield_point(7);
    }
    if grow > 0 {
        grew(grow, d > 0);
    }
    if shrink > 0 {
        CUR.fetch_sub(shrink, Relaxed);
    }
    covrt::set_depth(d);
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        before(l.size(), 0, true);
        System.alloc(aligned(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        before(l.size(), 0, true);
        System.alloc_zeroed(aligned(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        before(0, l.size(), false);
        System.dealloc(p, aligned(l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        before(n.saturating_sub(l.size()), l.size().saturating_sub(n), false);
        System.realloc(p, aligned(l), n)
    }
}

// ---------------------------------------------------------------- scratch folder (harness side)

/// Removes everything below the relative folder `p` and recreates it empty.
pub fn fresh_scratch() {
    remove_scratch();
    std::fs::create_dir("s").expect("scratch folder");
}
pub fn remove_scratch() {
    if std::path::Path::new("s").exists() {
        std::fs::remove_dir_all("s").expect("scratch clean-up");
    }
}
pub fn probe_last_bytes(cond: bool) {
    if cond {
        probe(Ev::PLastBytes);
    }
}
pub fn user(i: usize) -> &'static mut u64 {
    &mut sh().user[i]
}
