//! Shared run state: event log, counters, outcome, and the wrapper around library calls.

use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TAPE_CAP: usize = 1 << 16;
pub const NCOUNT: usize = 160;

macro_rules! events {
    ($($name:ident : $class:ident $label:literal),* $(,)?) => {
        /// What the simulator records. `F`: a fault or irregular delivery that really
        /// happened, `P`: a reach probe, `E`: an ordinary event.
        #[derive(Clone, Copy, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Ev { $($name),* }
        pub const EV_NAMES: &[(&str, char)] = &[$(($label, stringify!($class).as_bytes()[0] as char)),*];
    };
}

events! {
    Fill: E "reader.fill", Read: E "reader.read", Seek: E "reader.seek", Write: E "writer.write",
    SysOpen: E "sys.open", SysRead: E "sys.read", SysWrite: E "sys.write", SysSeek: E "sys.lseek",
    SysClose: E "sys.close", SysMkdir: E "sys.mkdir", SysOther: E "sys.other", SysMeta: E "sys.rename-or-flush",
    Item: E "item", ItemErr: E "item.error", ItemEnd: E "item.end", Switch: E "sched.switch",
    LogRec: E "log.record", Life: E "process.life", Stat: E "sys.stat",
    // faults and irregular deliveries
    ShortFill: F "short delivery", Eintr: F "interrupted read", ReadErr: F "reader error",
    SeekErr: F "seek error", Cut: F "truncated stream", Grow: F "stream growth after end",
    Boundary: F "chunk boundary inside a segment header",
    ShortWrite: F "short write", EintrW: F "interrupted write", WriteErr: F "write error",
    WriteZero: F "write accepting nothing",
    SysShortRead: F "short read(2)", SysEintr: F "EINTR from a system call",
    SysErr: F "failing system call", SysShortWrite: F "short write(2)", DiskFull: F "disk full",
    MkdirRace: F "folder created by another process", SysGrow: F "file changed between reads",
    Crash: F "process killed", FlipBit: F "flipped bit", FlipByte: F "overwritten byte",
    LoseRange: F "lost range", DupRange: F "repeated range", SwapRange: F "swapped ranges",
    LosePack: F "lost pack", Packetise: F "irregular packetisation", ForeignPack: F "foreign pack",
    Junk: F "bytes between packs", Preempt: F "preemption inside a library call",
    FutexWait: F "thread blocked on a lock", ZeroRange: F "zeroed range",
    FieldDamage: F "damaged length/size/flag field", Broken: F "undecodable subtitle stored", Stop: F "parser dropped and restarted",
    Interleave: F "interleaving on one thread", SysSlow: F "file missing or wrong type",
    SpuriousWake: F "spurious wake-up", LoseSeg: F "lost segment", DupSeg: F "repeated segment",
    SwapSeg: F "swapped segments", LoggerOn: P "logging switched on",
    // reach probes
    PFragment: P "object in two fragments", PBigObject: P "object above 64 KiB",
    PSparse: P "sparse palette", PMissingId: P "pixel id missing from palette",
    PLongRun: P "run above 16383 pixels", PNoImage: P "pair without bitmap",
    PHidePal: P "palette in the hide set", PFullPts: P "timestamp above 2^31",
    PCutPayload: P "cut inside needed payload", PSeekSkip: P "skip done by seeking",
    PImageOk: P "image compared", PNoStop: P "subtitle without stop date",
    PDts: P "packet with decode timestamp", PShared: P "fields sharing bytes",
    PPrefixKept: P "subtitles before the fault compared", PRecovered: P "subtitle after the damage compared",
    PErrReported: P "fault reported as error", PEndReached: P "end reached", PRefused: P "damage refused with an error",
    PDamagedImage: P "image out of damaged data rendered", PCrashMid: P "crash in the middle of an image file",
    PLastBytes: P "failure at the last buffered bytes", PFirstUse: P "threads met in a lazy initialisation",
    PBigOffset: P "17-bit or larger timestamp carries", PBackpressure: P "pending packet after a lost one",
    PRestartDone: P "restart completed the output",
    PManySkipped: P "hundreds of skipped segments in a row", PSuperseded: P "object replaced before its subtitle is shown",
    PLongChain: P "long chain of control sequences", PLongLine: P "index line of thousands of characters", PFullUnit: P "subtitle near the largest size", PHugeSkip: P "skip of 64 KiB to exabytes", PManyItems: P "hundreds to ten thousands of subtitles in a stream", PSameImages: P "equal images in a dump", PManyPacks: P "dozens of packs between two of a subtitle",
    PManyPieces: P "subtitle in hundreds of packets", PLongJunk: P "thousands of bytes between packs",
    PLongText: P "text of thousands of entries", PManyLines: P "index of hundreds of lines", PManyImages: P "dump of hundreds of images",
    CbPanic: F "panic in a caller's callback", Nest: F "library re-entered from a caller's callback",
}

#[repr(C)]
pub struct Shared {
    pub mode: u64,
    pub prng: u64,
    pub replay_len: u64,
    pub replay_pos: u64,
    pub rec_len: u64,
    pub rec_overflow: u64,
    pub hash: u64,
    pub events: u64,
    /// 0 none yet, 1 held, 2 violation, 3 harness error
    pub outcome: u64,
    pub class_len: u64,
    pub msg_len: u64,
    pub compared: u64,
    pub media_ms: u64,
    pub trace_fd: i64,
    pub verbose: u64,
    pub user: [u64; 16],
    pub counters: [u64; NCOUNT],
    pub class: [u8; 256],
    pub msg: [u8; 8192],
    pub rec: [u64; TAPE_CAP],
    pub replay: [u64; TAPE_CAP],
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    // One thread at a time touches it: the run's only thread, or the baton holder.
    unsafe { &mut *SH }
}
pub fn set_shared(p: *mut Shared) {
    unsafe { SH = p }
}
pub fn map_shared() -> *mut Shared {
    map_bytes(std::mem::size_of::<Shared>()).cast()
}
pub fn map_bytes(n: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p.cast()
}

impl Shared {
    pub fn reset(&mut self) {
        self.mode = 0;
        self.prng = 0;
        self.replay_len = 0;
        self.replay_pos = 0;
        self.rec_len = 0;
        self.rec_overflow = 0;
        self.hash = 0xcbf2_9ce4_8422_2325;
        self.events = 0;
        self.outcome = 0;
        self.class_len = 0;
        self.msg_len = 0;
        self.compared = 0;
        self.media_ms = 0;
        self.user = [0; 16];
        self.counters = [0; NCOUNT];
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn faults(&self) -> u64 {
        EV_NAMES
            .iter()
            .enumerate()
            .filter(|(_, (_, c))| *c == 'F')
            .map(|(i, _)| self.counters[i])
            .sum()
    }
}

/// A text buffer that never allocates.
pub struct FixBuf<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> FixBuf<N> {
    pub fn new() -> Self {
        Self { b: [0; N], n: 0 }
    }
}
impl<const N: usize> fmt::Write for FixBuf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let k = s.len().min(N - self.n);
        self.b[self.n..self.n + k].copy_from_slice(&s.as_bytes()[..k]);
        self.n += k;
        Ok(())
    }
}

fn absorb(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29) ^ (v >> 7);
}

/// Records one event: log hash, counter, and in verbose runs a trace line.
pub fn ev(kind: Ev, a: u64, b: u64) {
    outside(|| record(kind, a, b));
}
fn record(kind: Ev, a: u64, b: u64) {
    let s = sh();
    s.counters[kind as usize] += 1;
    s.events += 1;
    absorb(&mut s.hash, kind as u64 + 1);
    absorb(&mut s.hash, a);
    absorb(&mut s.hash, b);
    if s.verbose != 0 {
        trace(format_args!("{:>6} {} a={} b={}", s.events, EV_NAMES[kind as usize].0, a, b));
    }
}
/// Counts a probe or an attribute of the run without touching the event log hash.
pub fn probe(kind: Ev) {
    sh().counters[kind as usize] += 1;
}
pub fn trace(args: fmt::Arguments<'_>) {
    let s = sh();
    if s.verbose == 0 {
        return;
    }
    let d = covrt::set_depth(0);
    let mut f = FixBuf::<2048>::new();
    let _ = f.write_fmt(args);
    let _ = f.write_str("\n");
    crate::sys::raw_write_all(s.trace_fd as i32, &f.b[..f.n]);
    covrt::set_depth(d);
}
#[macro_export]
macro_rules! note {
    ($($t:tt)*) => { if $crate::world::sh().verbose != 0 { $crate::world::trace(format_args!($($t)*)) } };
}

/// A subtitle/item/byte string was compared with the model.
pub fn compared(n: u64) {
    sh().compared += n;
}

fn finish(outcome: u64, class: fmt::Arguments<'_>, msg: fmt::Arguments<'_>) -> ! {
    covrt::set_depth(0);
    let s = sh();
    if s.outcome < 2 {
        s.outcome = outcome;
        let mut c = FixBuf::<256>::new();
        let _ = c.write_fmt(class);
        s.class[..c.n].copy_from_slice(&c.b[..c.n]);
        s.class_len = c.n as u64;
        let mut m = FixBuf::<8192>::new();
        let _ = m.write_fmt(msg);
        s.msg[..m.n].copy_from_slice(&m.b[..m.n]);
        s.msg_len = m.n as u64;
        trace(format_args!("   !!! {} {class}: {msg}", if outcome == 2 { "VIOLATION" } else { "HARNESS ERROR" }));
    }
    crate::sys::raw_exit(if outcome == 2 { 41 } else { 42 })
}
pub fn violate(class: fmt::Arguments<'_>, msg: fmt::Arguments<'_>) -> ! {
    finish(2, class, msg)
}
pub fn harness_error(msg: fmt::Arguments<'_>) -> ! {
    finish(3, format_args!("harness"), msg)
}
#[macro_export]
macro_rules! fail {
    ($class:literal, $($t:tt)*) => {
        $crate::world::violate(format_args!($class), format_args!($($t)*))
    };
}

thread_local! {
    static PANIC: Cell<Option<(String, String)>> = const { Cell::new(None) };
}
pub fn in_lib() -> bool {
    covrt::depth() > 0
}
/// Runs simulator code called from inside the library.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let old = covrt::set_depth(0);
    let r = f();
    covrt::set_depth(old);
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        outside(|| {
            let loc = info
                .location()
                .map_or_else(|| "?".to_owned(), |l| format!("{}:{}", l.file(), l.line()));
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_owned()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_owned()
            };
            PANIC.with(|p| p.set(Some((loc, msg))));
        });
    }));
}

/// Calls into the library: panics, stdout output and runaway allocation are violations.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let old = covrt::depth();
    covrt::set_depth(old + 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    covrt::set_depth(old);
    match r {
        Ok(v) => v,
        Err(p) if p.is::<Planned>() => {
            PANIC.with(Cell::take);
            std::panic::resume_unwind(p)
        }
        Err(_) => {
            let (loc, msg) = PANIC.with(Cell::take).unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("src/") {
                harness_error(format_args!("panic in the harness at {loc}: {msg}"));
            }
            violate(
                format_args!("panic@{loc}"),
                format_args!("the library panicked at {loc}: {msg}"),
            )
        }
    }
}
/// What a caller's callback (reader, writer, conversion, iterator) panics with on purpose.
pub struct Planned;

/// Called by everything the simulator hands to the library as a caller's own code: such code may
/// use the library itself, and it may panic.
pub fn callback() {
    if let Some(f) = unsafe { CALLBACK } {
        outside(f);
    }
}
static mut CALLBACK: Option<fn()> = None;
pub fn set_callback(f: Option<fn()>) {
    unsafe { CALLBACK = f }
}

/// Runs a whole simulated run; a panic outside the library is a harness error.
pub fn guard(f: impl FnOnce()) {
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let (loc, msg) = PANIC.with(Cell::take).unwrap_or(("?".into(), "?".into()));
        harness_error(format_args!("panic at {loc}: {msg}"));
    }
}

pub fn fail_steps(n: u64) -> ! {
    violate(
        format_args!("no-progress"),
        format_args!("the library made {n} calls on a bounded source without finishing"),
    )
}
