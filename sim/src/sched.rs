//! Cooperative scheduler over real threads: exactly one thread holds the baton.
//!
//! A thread gives the baton up only at yield points (reader, writer, system-call, logging and
//! allocation seams; in the finely instrumented build also any branch, load or store of the
//! library) and when it blocks on a futex. Who runs next, and after how many yield points, is
//! drawn from the tape.

use crate::sys::raw6;
use crate::tape;
use crate::world::{ev, probe, violate, Ev};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;
const NOBODY: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Unused,
    Runnable,
    Blocked(usize),
    Done,
}
struct Sched {
    active: bool,
    n: usize,
    st: [St; MAXT],
    gap: u64,
    gap_max: u64,
    switches: u64,
    max_switches: u64,
    /// fine preemption: the longest stretch between two switches inside the library (0: off)
    fine_max: u64,
    /// how often each static variable was treated as a likely race (by hashed offset)
    hot: [u8; 256],
    /// set when a woken waiter should report a timeout
    timed: [bool; MAXT],
}
static mut S: Sched = Sched {
    active: false,
    n: 0,
    st: [St::Unused; MAXT],
    gap: 0,
    gap_max: 1,
    switches: 0,
    max_switches: 0,
    fine_max: 0,
    hot: [0; 256],
    timed: [false; MAXT],
};
static BATON: [AtomicU32; MAXT + 2] = [const { AtomicU32::new(0) }; MAXT + 2];
const MAIN: usize = MAXT;
const NEVER: usize = MAXT + 1;

thread_local! { static ME: Cell<usize> = const { Cell::new(NOBODY) }; }

fn s() -> &'static mut Sched {
    #[allow(static_mut_refs)]
    unsafe {
        &mut S
    }
}
pub fn is_sim_thread() -> bool {
    ME.try_with(|m| m.get() != NOBODY).unwrap_or(false)
}
fn me() -> usize {
    ME.with(Cell::get)
}
fn park(slot: usize) {
    while BATON[slot].swap(0, SeqCst) == 0 {
        raw6(libc::SYS_futex, &BATON[slot] as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
    }
}
fn unpark(slot: usize) {
    BATON[slot].store(1, SeqCst);
    raw6(libc::SYS_futex, &BATON[slot] as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
fn new_gap() {
    let z = s();
    z.gap = if z.switches >= z.max_switches { u64::MAX } else { tape::below(z.gap_max) };
}
/// Picks the next thread among the runnable ones; None if there is none.
fn choose(exclude: usize) -> Option<usize> {
    let z = s();
    let mut c = [0usize; MAXT];
    let mut k = 0;
    for i in 0..z.n {
        if z.st[i] == St::Runnable && i != exclude {
            c[k] = i;
            k += 1;
        }
    }
    if k == 0 {
        None
    } else {
        Some(c[tape::below(k as u64) as usize])
    }
}
fn switch_to(t: usize) {
    let m = me();
    if t == m {
        return;
    }
    s().switches += 1;
    ev(Ev::Switch, t as u64, 0);
    unpark(t);
    park(m);
}
/// A place where the simulator may run another thread.
pub fn yield_point(kind: u64) {
    if !is_sim_thread() || !s().active {
        return;
    }
    let z = s();
    if z.gap > 0 {
        if z.gap != u64::MAX {
            z.gap -= 1;
        }
        return;
    }
    new_gap();
    if let Some(t) = choose(me()) {
        ev(Ev::Preempt, kind, 0);
        switch_to(t);
    }
}
/// Called by the finely instrumented build inside the library: `at` is 0 when the countdown of
/// this thread ended, else it identifies the static variable about to be touched.
fn fine_point(at: usize) {
    if !is_sim_thread() || !s().active {
        return;
    }
    let z = s();
    if z.switches >= z.max_switches {
        covrt::set_left(u32::MAX);
        return;
    }
    if at != 0 {
        let k = &mut z.hot[(at.wrapping_mul(0x9E37_79B9) >> 16) & 255];
        if *k >= 120 {
            return;
        }
        *k += 1;
        // A static variable: other threads may well meet this one here, or soon after.
        match tape::below(8) {
            5 | 6 => {
                covrt::set_left(tape::below(40) as u32);
                return;
            }
            7 => {}
            _ => return,
        }
    }
    covrt::set_left(tape::below(z.fine_max) as u32);
    if let Some(t) = choose(me()) {
        ev(Ev::Preempt, 30 + u64::from(at != 0), 0);
        switch_to(t);
    }
}
pub fn yield_now() {
    if let Some(t) = choose(me()) {
        switch_to(t);
    }
}
fn deadlock() -> ! {
    let z = s();
    let mut b = crate::world::FixBuf::<512>::new();
    for i in 0..z.n {
        use std::fmt::Write as _;
        let _ = match z.st[i] {
            St::Blocked(a) => write!(b, " {i}: waits for lock {:#x}", a & 0xffff),
            St::Done => write!(b, " {i}: finished"),
            _ => write!(b, " {i}: running"),
        };
    }
    violate(
        format_args!("deadlock"),
        format_args!("every thread is blocked on a lock:{}", String::from_utf8_lossy(&b.b[..b.n])),
    )
}
/// The futex system call of a simulated thread.
pub fn futex(addr: *const u32, op: i32, val: u32, timeout: bool) -> isize {
    let z = s();
    let cmd = op & 0x7f;
    let set_errno = |e| unsafe { *libc::__errno_location() = e };
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
        let cur = unsafe { (*addr.cast::<AtomicU32>()).load(SeqCst) };
        if cur != val {
            set_errno(libc::EAGAIN);
            return -1;
        }
        ev(Ev::FutexWait, 0, 0);
        probe(Ev::PFirstUse);
        let m = me();
        z.timed[m] = false;
        // Spurious wake-ups are legal: sometimes return at once after letting others run.
        let spurious = timeout || tape::chance(1, 8);
        if spurious {
            if let Some(t) = choose(m) {
                ev(Ev::SpuriousWake, 0, 0);
                switch_to(t);
            } else if !timeout {
                deadlock();
            }
            if timeout {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            return 0;
        }
        z.st[m] = St::Blocked(addr as usize);
        match choose(m) {
            Some(t) => switch_to(t),
            None => deadlock(),
        }
        0
    } else if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
        let mut woken = 0;
        while woken < val as isize {
            let mut c = [0usize; MAXT];
            let mut k = 0;
            for i in 0..z.n {
                if z.st[i] == St::Blocked(addr as usize) {
                    c[k] = i;
                    k += 1;
                }
            }
            if k == 0 {
                break;
            }
            let t = c[tape::below(k as u64) as usize];
            z.st[t] = St::Runnable;
            woken += 1;
        }
        woken
    } else {
        set_errno(libc::ENOSYS);
        -1
    }
}

/// Runs the jobs on threads of their own under the scheduler; returns when all are done.
pub fn run_threads(jobs: Vec<Box<dyn FnOnce() + Send>>, gap_max: u64, max_switches: u64, fine_max: u64) {
    let n = jobs.len();
    assert!(n <= MAXT && n > 0);
    {
        let z = s();
        z.n = n;
        z.gap_max = gap_max.max(1);
        z.switches = 0;
        z.max_switches = max_switches;
        z.fine_max = fine_max;
        z.hot = [0; 256];
        for i in 0..MAXT {
            z.st[i] = if i < n { St::Runnable } else { St::Unused };
        }
    }
    for (i, j) in jobs.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                unpark(MAIN);
                park(i);
                if s().fine_max > 0 {
                    covrt::set_left(tape::below(s().fine_max) as u32);
                }
                crate::world::guard(j);
                // Done: hand the baton on and never come back (the run ends with the process).
                s().st[i] = St::Done;
                match choose(i) {
                    Some(t) => {
                        ev(Ev::Switch, t as u64, 1);
                        unpark(t);
                    }
                    None => {
                        if s().st[..s().n].iter().any(|x| matches!(x, St::Blocked(_))) {
                            deadlock();
                        }
                        unpark(MAIN);
                    }
                }
                loop {
                    park(NEVER);
                }
            })
            .expect("thread");
        park(MAIN);
    }
    s().active = true;
    if fine_max > 0 {
        covrt::start(fine_point, true);
    }
    new_gap();
    let first = choose(NOBODY).expect("a thread");
    ev(Ev::Switch, first as u64, 2);
    unpark(first);
    park(MAIN);
    covrt::stop();
    s().active = false;
}
