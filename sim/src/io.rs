//! Simulated readers and writers: chunking, interruptions, failures, cuts, growth.

use crate::tape;
use crate::world::{ev, fail_steps, outside, Ev};
use std::io::{self, BufRead, ErrorKind, Read, Seek, SeekFrom, Write};

/// Delivery schedule of a reader.
#[derive(Clone, Copy, Debug)]
pub enum Chunk {
    /// everything there is
    All,
    /// one byte at a time
    One,
    /// a fixed size
    Fixed(usize),
    /// a fresh size in 1..=max at every delivery
    Rand(usize),
    /// mostly large, sometimes tiny
    Mixed(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// chance (of 16) that a read or fill is interrupted
    pub eintr: u64,
    /// longest run of interruptions
    pub eintr_max: u32,
    /// a read that needs the byte at this position fails
    pub fail_pos: u64,
    /// the n-th seek fails
    pub fail_seek: u32,
    /// the n-th delivery (fill or read) fails
    pub fail_fill: u32,
    pub kind: ErrorKind,
    /// errno instead of a kind
    pub errno: i32,
    /// how many times in a row it fails (u32::MAX: for ever)
    pub fail_times: u32,
}

impl Plan {
    pub const CALM: Self = Self {
        chunk: Chunk::All,
        eintr: 0,
        eintr_max: 0,
        fail_pos: u64::MAX,
        fail_seek: u32::MAX,
        fail_fill: u32::MAX,
        kind: ErrorKind::Other,
        errno: 0,
        fail_times: 0,
    };
    /// Sometimes has the failing seek interrupted instead (which may be retried, or reported).
    pub fn interrupt_seeks(&mut self) {
        if self.fail_seek != u32::MAX && tape::chance(1, 4) {
            self.kind = ErrorKind::Interrupted;
            self.errno = tape::pick(&[0, libc::EINTR]);
            self.fail_times = tape::range(1, 2) as u32;
        }
    }
    /// May a caller retry what failed?
    pub fn transient(&self) -> bool {
        self.kind == ErrorKind::Interrupted
    }
    /// A legal delivery: chunks and interruptions, no failure.
    pub fn legal() -> Self {
        let mut p = Self::CALM;
        p.chunk = match tape::weighted(&[2, 2, 3, 5, 3]) {
            0 => Chunk::All,
            1 => Chunk::One,
            2 => Chunk::Fixed(tape::urange(2, 40)),
            3 => Chunk::Rand(tape::pick(&[3, 7, 13, 20, 64, 500, 5000])),
            _ => Chunk::Mixed(tape::pick(&[8, 16, 64, 8192, 70000])),
        };
        if tape::chance(1, 2) {
            p.eintr = tape::range(1, 8);
            p.eintr_max = tape::range(1, 5) as u32;
        }
        p
    }
}

pub const ERROR_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::AddrInUse,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::ResourceBusy,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
];
pub const READ_ERRNOS: &[i32] = &[libc::EIO, libc::EBADF, libc::EISDIR, libc::EACCES, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT, libc::EAGAIN, libc::ECONNABORTED, libc::ECONNRESET, libc::EPIPE, libc::ENXIO, libc::EOVERFLOW, libc::ENODEV, libc::EBUSY, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ENETDOWN, libc::ENOSPC, libc::EDEADLK, libc::EUCLEAN];

/// What the reader's bytes come from.
pub trait Store: Send {
    fn len(&self) -> u64;
    /// Longest slice available at `pos`.
    fn at(&self, pos: u64) -> &[u8];
}
impl Store for Vec<u8> {
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn at(&self, pos: u64) -> &[u8] {
        &self[(pos as usize).min(Vec::len(self))..]
    }
}
impl Store for std::sync::Arc<Vec<u8>> {
    fn len(&self) -> u64 {
        self.as_slice().len() as u64
    }
    fn at(&self, pos: u64) -> &[u8] {
        &self[(pos as usize).min(self.as_slice().len())..]
    }
}
/// One blob repeated many times: a long stream that needs no memory.
pub struct Repeat {
    pub blob: Vec<u8>,
    pub times: u64,
}
impl Store for Repeat {
    fn len(&self) -> u64 {
        self.blob.len() as u64 * self.times
    }
    fn at(&self, pos: u64) -> &[u8] {
        if pos >= Store::len(self) {
            &[]
        } else {
            &self.blob[(pos % self.blob.len() as u64) as usize..]
        }
    }
}

/// What happened so far, shared with the test through a leaked cell.
#[derive(Default, Debug)]
pub struct Seen {
    pub hard_errors: u64,
    pub eintrs: u64,
    pub steps: u64,
    pub max_steps: u64,
    /// highest position delivered
    pub high: u64,
    pub pos: u64,
    /// bytes currently visible (growth moves it)
    pub limit: u64,
    pub seeks: u64,
}

pub struct SimReader<S: Store> {
    store: S,
    pos: u64,
    /// bytes of the current window still offered
    win: usize,
    plan: Plan,
    eintr_run: u32,
    fills: u32,
    seeks: u32,
    failed: u32,
    seen: *mut Seen,
}
unsafe impl<S: Store> Send for SimReader<S> {}

impl<S: Store> SimReader<S> {
    /// The second value outlives the reader.
    pub fn new(store: S, plan: Plan) -> (Self, &'static mut Seen) {
        let limit = store.len();
        let seen: *mut Seen = Box::leak(Box::new(Seen { limit, max_steps: 40 * limit + 200_000, ..Seen::default() }));
        (
            Self { store, pos: 0, win: 0, plan, eintr_run: 0, fills: 0, seeks: 0, failed: 0, seen },
            unsafe { &mut *seen },
        )
    }
    fn seen(&self) -> &'static mut Seen {
        unsafe { &mut *self.seen }
    }
    fn err(&self) -> io::Error {
        if self.plan.errno != 0 {
            io::Error::from_raw_os_error(self.plan.errno)
        } else {
            self.plan.kind.into()
        }
    }
    fn step(&self) {
        let s = self.seen();
        s.steps += 1;
        if s.steps > s.max_steps {
            fail_steps(s.steps);
        }
    }
    /// Interruption or failure of a delivery?
    fn trouble(&mut self, avail: usize) -> Option<io::Error> {
        self.step();
        if self.plan.eintr > 0 && self.eintr_run < self.plan.eintr_max && tape::chance(self.plan.eintr, 16) {
            self.eintr_run += 1;
            self.seen().eintrs += 1;
            ev(Ev::Eintr, self.pos, 0);
            return Some(ErrorKind::Interrupted.into());
        }
        self.eintr_run = 0;
        let n = self.fills;
        self.fills += 1;
        let _ = avail;
        if (self.pos >= self.plan.fail_pos || n >= self.plan.fail_fill) && self.failed < self.plan.fail_times {
            self.failed += 1;
            self.seen().hard_errors += 1;
            ev(Ev::ReadErr, self.pos, 0);
            return Some(self.err());
        }
        None
    }
    fn chunk_len(&self, avail: usize) -> usize {
        if avail <= 1 {
            return avail;
        }
        let want = match self.plan.chunk {
            Chunk::All => avail,
            Chunk::One => 1,
            Chunk::Fixed(n) => n,
            Chunk::Rand(max) => tape::urange(1, max),
            Chunk::Mixed(max) => {
                if tape::chance(1, 3) {
                    tape::urange(1, 4)
                } else {
                    max
                }
            }
        };
        let want = want.min(avail);
        if self.plan.fail_pos > self.pos && self.failed < self.plan.fail_times {
            want.min((self.plan.fail_pos - self.pos) as usize)
        } else {
            want
        }
    }
    fn avail(&self) -> usize {
        let lim = self.seen().limit;
        if self.pos >= lim {
            0
        } else {
            self.store.at(self.pos).len().min((lim - self.pos) as usize)
        }
    }
    fn delivered(&self, n: usize, avail: usize, kind: Ev) {
        let s = self.seen();
        s.high = s.high.max(self.pos + n as u64);
        if n < avail {
            ev(Ev::ShortFill, self.pos, n as u64);
        } else {
            ev(kind, self.pos, n as u64);
        }
    }
}
impl<S: Store> Read for SimReader<S> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        outside(|| {
            crate::sched::yield_point(8);
            crate::world::callback();
            if buf.is_empty() {
                return Ok(0);
            }
            let n = if self.win > 0 {
                self.step();
                self.win
            } else {
                let avail = self.avail();
                if let Some(e) = self.trouble(avail) {
                    return Err(e);
                }
                let n = self.chunk_len(avail);
                self.delivered(n, avail.min(buf.len()), Ev::Read);
                n
            };
            let n = n.min(buf.len());
            let src = self.store.at(self.pos);
            buf[..n].copy_from_slice(&src[..n]);
            self.pos += n as u64;
            self.win = self.win.saturating_sub(n);
            self.seen().pos = self.pos;
            Ok(n)
        })
    }
}
impl<S: Store> BufRead for SimReader<S> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        outside(|| {
            crate::sched::yield_point(8);
            crate::world::callback();
            if self.win == 0 {
                let avail = self.avail();
                if let Some(e) = self.trouble(avail) {
                    return Err(e);
                }
                let n = self.chunk_len(avail);
                self.delivered(n, avail, Ev::Fill);
                self.win = n;
            } else {
                self.step();
            }
            Ok(&self.store.at(self.pos)[..self.win])
        })
    }
    fn consume(&mut self, n: usize) {
        if n > self.win {
            outside(|| {
                crate::world::violate(
                    format_args!("over-consume"),
                    format_args!("consume({n}) with only {} bytes buffered", self.win),
                )
            });
        }
        self.pos += n as u64;
        self.win -= n;
        self.seen().pos = self.pos;
    }
}
impl<S: Store> Seek for SimReader<S> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        outside(|| {
            crate::sched::yield_point(9);
            crate::world::callback();
            self.step();
            let query = matches!(to, SeekFrom::Current(0));
            if !query {
                let n = self.seeks;
                self.seeks += 1;
                if n >= self.plan.fail_seek && self.failed < self.plan.fail_times {
                    self.failed += 1;
                    self.seen().hard_errors += 1;
                    ev(Ev::SeekErr, self.pos, 0);
                    return Err(self.err());
                }
            }
            let base = match to {
                SeekFrom::Start(p) => return Ok(self.jump(p)),
                SeekFrom::Current(d) => i128::from(self.pos) + i128::from(d),
                SeekFrom::End(d) => i128::from(self.seen().limit) + i128::from(d),
            };
            if query {
                return Ok(self.pos);
            }
            match u64::try_from(base) {
                Ok(p) => Ok(self.jump(p)),
                Err(_) => Err(ErrorKind::InvalidInput.into()),
            }
        })
    }
}
impl<S: Store> SimReader<S> {
    fn jump(&mut self, p: u64) -> u64 {
        ev(Ev::Seek, self.pos, p);
        self.pos = p;
        self.win = 0;
        let s = self.seen();
        s.pos = p;
        s.seeks += 1;
        p
    }
}

pub trait BufSeek: BufRead + Seek {}
impl<T: BufRead + Seek + ?Sized> BufSeek for T {}

/// How a byte string reaches the parser.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Direct,
    Buffered(usize),
    Cursor,
    BufferedCursor(usize),
}
pub fn pick_via() -> Via {
    match tape::weighted(&[6, 6, 1, 2]) {
        0 => Via::Direct,
        1 => Via::Buffered(pick_cap()),
        2 => Via::Cursor,
        _ => Via::BufferedCursor(pick_cap()),
    }
}
pub fn pick_cap() -> usize {
    match tape::weighted(&[3, 2, 2]) {
        0 => tape::urange(1, 40),
        1 => tape::pick(&[64, 512, 4096, 8192]),
        _ => tape::urange(1, 70000),
    }
}
pub fn make<S: Store + AsRef<[u8]> + 'static>(via: Via, store: S, plan: Plan) -> (Box<dyn BufSeek>, &'static mut Seen) {
    match via {
        Via::Direct => {
            let (r, s) = SimReader::new(store, plan);
            (Box::new(r), s)
        }
        Via::Buffered(c) => {
            let (r, s) = SimReader::new(store, plan);
            (Box::new(io::BufReader::with_capacity(c, r)), s)
        }
        Via::Cursor => (Box::new(io::Cursor::new(store)), Box::leak(Box::default())),
        Via::BufferedCursor(c) => (Box::new(io::BufReader::with_capacity(c, io::Cursor::new(store))), Box::leak(Box::default())),
    }
}

// ---------------------------------------------------------------- writer

#[derive(Clone, Copy, Debug)]
pub struct WPlan {
    /// chance (of 16) of a short write / an interruption
    pub short: u64,
    pub eintr: u64,
    /// bytes accepted before the failure
    pub limit: u64,
    /// 0: an errno error, 1: Ok(0), 2: an ErrorKind, 3: transient error (one call)
    pub mode: u64,
    pub errno: i32,
    pub kind: ErrorKind,
}
impl WPlan {
    pub const CALM: Self = Self { short: 0, eintr: 0, limit: u64::MAX, mode: 0, errno: libc::EIO, kind: ErrorKind::Other };
}
pub struct SimWriter {
    pub got: Vec<u8>,
    pub plan: WPlan,
    pub failed: u64,
    pub calls_after_failure: u64,
    eintr_run: u32,
    steps: u64,
    pub flushes: u64,
}
impl SimWriter {
    pub fn new(plan: WPlan) -> Self {
        Self { got: Vec::new(), plan, failed: 0, calls_after_failure: 0, eintr_run: 0, steps: 0, flushes: 0 }
    }
    pub fn error(&self) -> io::Error {
        if self.plan.mode == 2 || self.plan.mode == 3 {
            self.plan.kind.into()
        } else {
            io::Error::from_raw_os_error(self.plan.errno)
        }
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        outside(|| {
            crate::sched::yield_point(10);
            crate::world::callback();
            self.steps += 1;
            if self.steps > 4_000_000 {
                fail_steps(self.steps);
            }
            if buf.is_empty() {
                return Ok(0);
            }
            if self.plan.eintr > 0 && self.eintr_run < 4 && tape::chance(self.plan.eintr, 16) {
                self.eintr_run += 1;
                ev(Ev::EintrW, self.got.len() as u64, 0);
                return Err(ErrorKind::Interrupted.into());
            }
            self.eintr_run = 0;
            if self.failed > 0 {
                self.calls_after_failure += 1;
            }
            let room = self.plan.limit.saturating_sub(self.got.len() as u64);
            if room == 0 && !(self.plan.mode == 3 && self.failed > 0) {
                self.failed += 1;
                if self.plan.mode == 1 {
                    ev(Ev::WriteZero, self.got.len() as u64, 0);
                    return Ok(0);
                }
                ev(Ev::WriteErr, self.got.len() as u64, 0);
                return Err(self.error());
            }
            let mut n = buf.len();
            if n > 1 && self.plan.short > 0 && tape::chance(self.plan.short, 16) {
                n = tape::urange(1, n - 1);
            }
            if room > 0 {
                n = n.min(usize::try_from(room).unwrap_or(usize::MAX));
            }
            self.got.extend_from_slice(&buf[..n]);
            ev(if n < buf.len() { Ev::ShortWrite } else { Ev::Write }, buf.len() as u64, n as u64);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}
