//! C23: the reading helpers and iteration offered to callers who bring a decoder of their own.

use super::pgsp::hard_plan_len;
use crate::io::{make, pick_cap, pick_via, BufSeek, Plan, Seen, Via};
use crate::tape::{self, Bulk};
use crate::world::{compared, ev, lib, probe, Ev};
use std::error::Error;
use std::io::{self, BufRead, ErrorKind, Seek};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use subtile::pgs::{PgsDecoder, PgsError, ReadExt as _, SupParser};

/// The io error below an error, if any.
fn cause(e: &(dyn Error + 'static)) -> Option<(ErrorKind, Option<i32>)> {
    let mut at = Some(e);
    while let Some(x) = at {
        if let Some(x) = x.downcast_ref::<io::Error>() {
            return Some((x.kind(), x.raw_os_error()));
        }
        at = x.source();
    }
    None
}
fn amount(left: usize) -> usize {
    match tape::weighted(&[8, 6, 6, 4, 4, 2]) {
        0 => tape::urange(0, 40),
        1 => tape::pick(&[0, 1, 2, 13, 255, 256, 257]),
        2 => tape::urange(0, left),
        3 => tape::pick(&[4095, 4096, 8191, 8192, 8193, 65_535, 65_536, 65_537]),
        4 => left,
        _ => left + tape::urange(1, 70_000),
    }
}
fn same_cause(what: &str, plan: &Plan, e: &(dyn Error + 'static)) {
    let want = if plan.errno != 0 { io::Error::from_raw_os_error(plan.errno) } else { plan.kind.into() };
    match cause(e) {
        None => fail!("no-cause", "{what}: the reader failed ({want:?}), the error doesn't carry it: {e:?}"),
        Some(got) => {
            if got != (want.kind(), want.raw_os_error()) {
                fail!("wrong-cause", "{what}: the reader failed with {want:?}, the error carries {got:?}");
            }
        }
    }
}

fn draw_reader() -> (Vec<u8>, Box<dyn BufSeek>, &'static mut Seen, Plan, Via) {
    let len = match tape::weighted(&[4, 3, 2, 1]) {
        0 => tape::urange(0, 200),
        1 => tape::urange(0, 3000),
        2 => tape::urange(0, 20_000),
        _ => tape::urange(0, 300_000),
    };
    let mut bulk = Bulk::new(tape::below(1 << 32));
    let data: Vec<u8> = (0..len).map(|_| bulk.byte()).collect();
    let (via, plan) = if tape::chance(1, 3) {
        let mut plan = hard_plan_len(len);
        plan.interrupt_seeks();
        (if tape::chance(1, 2) { Via::Direct } else { Via::Buffered(pick_cap()) }, plan)
    } else {
        (pick_via(), Plan::legal())
    };
    note!("  {len} bytes via {via:?} {plan:?}");
    let (r, seen) = make(via, data.clone(), plan);
    (data, r, seen, plan, via)
}

/// Any sequence of exact reads and skips.
fn sequence() {
    let (data, mut r, seen, plan, _) = draw_reader();
    let len = data.len();
    let mut pos = 0usize;
    for k in 0..tape::urange(1, 30) {
        let n = amount(len.saturating_sub(pos));
        let before = seen.hard_errors;
        if tape::chance(1, 2) {
            let mut buf = vec![0xA5; n];
            let got = lib(|| r.read_buffer(&mut buf));
            let struck = seen.hard_errors > before;
            ev(Ev::Item, pos as u64, n as u64);
            match got {
                Ok(()) if struck && !plan.transient() => fail!("hidden-failure", "call {k}: the reader failed while {n} bytes were read at {pos}, but the read succeeded"),
                Ok(()) if pos + n > len && n > 0 => fail!("invented-bytes", "call {k}: {n} bytes read at {pos}, but the stream has {len}"),
                Ok(()) => {
                    if n > 0 && buf != data[pos..pos + n] {
                        let at = buf.iter().zip(&data[pos..]).position(|(a, b)| a != b).unwrap_or(0);
                        fail!("wrong-bytes", "call {k}: reading {n} bytes at {pos}: byte {at} is {:#x} instead of {:#x}", buf[at], data[pos + at]);
                    }
                    pos += n;
                    compared(1);
                }
                Err(e) => {
                    if struck {
                        same_cause("read", &plan, &e);
                        probe(Ev::PErrReported);
                    } else if pos + n <= len || n == 0 {
                        fail!("spurious-error", "call {k}: {n} bytes at {pos} of {len}, the reader did not fail, but: {e:?}");
                    } else if !matches!(cause(&e), Some((ErrorKind::UnexpectedEof, _))) {
                        fail!("wrong-cause", "call {k}: {n} bytes at {pos} of {len}: the stream ends, the error says {e:?}");
                    } else {
                        probe(Ev::PEndReached);
                    }
                    let _ = lib(|| e.to_string());
                    compared(1);
                    return;
                }
            }
        } else {
            let n = if tape::chance(1, 60) {
                // far behind any stream's end, and of every width
                probe(Ev::PHugeSkip);
                (1usize << tape::pick(&[16, 24, 31, 32, 33, 40, 62])) + n
            } else {
                n
            };
            let got = lib(|| r.skip_data(n));
            let struck = seen.hard_errors > before;
            ev(Ev::Item, pos as u64, 1 << 32 | n as u64);
            match got {
                Ok(()) if struck && !plan.transient() => fail!("hidden-failure", "call {k}: the reader failed while {n} bytes were skipped at {pos}, but the skip succeeded"),
                Ok(()) => {
                    pos += n;
                    compared(1);
                }
                Err(e) => {
                    if struck {
                        same_cause("skip", &plan, &e);
                        probe(Ev::PErrReported);
                    } else if pos + n <= len {
                        fail!("spurious-error", "call {k}: skipping {n} bytes at {pos} of {len}, the reader did not fail, but: {e:?}");
                    }
                    compared(1);
                    return;
                }
            }
        }
        if tape::chance(1, 4) {
            let p = r.stream_position().expect("position");
            // a skip past the end may stop there
            if p != pos as u64 && pos <= len {
                fail!("wrong-position", "call {k}: the reader stands at {p} instead of {pos}");
            }
        }
    }
}

static CALLS: AtomicU64 = AtomicU64::new(0);
static NONE_AT: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicU64 = AtomicU64::new(0);

/// A caller's decoder: a record is two bytes of length, that many bytes to keep and as many to skip.
struct Records;
impl PgsDecoder for Records {
    type Output = (u64, Vec<u8>);
    fn parse_next<R: BufRead + Seek>(reader: &mut R) -> Result<Option<Self::Output>, PgsError> {
        let call = CALLS.fetch_add(1, Relaxed);
        if call >= NONE_AT.load(Relaxed) {
            return Ok(None);
        }
        if call >= FAIL_AT.load(Relaxed) {
            return Err(PgsError::SegmentInvalidTypeCode { value: 77 });
        }
        let at = reader.stream_position().unwrap_or(u64::MAX);
        let mut head = [0; 2];
        if reader.read_buffer(&mut head).is_err() {
            return Err(PgsError::SegmentFailReadHeader);
        }
        let n = usize::from(u16::from_be_bytes(head));
        let mut keep = vec![0; n];
        reader.read_buffer(&mut keep).map_err(|_| PgsError::SegmentPGMissing)?;
        reader.skip_data(n).map_err(|_| PgsError::SegmentPGMissing)?;
        Ok(Some((at, keep)))
    }
}

fn own_decoder() {
    let mut data = vec![];
    let mut want = vec![];
    let mut bulk = Bulk::new(tape::below(1 << 32));
    for _ in 0..tape::urange(0, 12) {
        let n = match tape::weighted(&[4, 2, 1]) {
            0 => tape::urange(0, 30),
            1 => tape::urange(0, 600),
            _ => tape::urange(0, 65_535),
        };
        let at = data.len() as u64;
        data.extend((n as u16).to_be_bytes());
        let keep: Vec<u8> = (0..n).map(|_| bulk.byte()).collect();
        data.extend(&keep);
        data.extend((0..n).map(|_| bulk.byte()));
        want.push((at, keep));
    }
    let count = want.len() as u64;
    CALLS.store(0, Relaxed);
    NONE_AT.store(u64::MAX, Relaxed);
    FAIL_AT.store(u64::MAX, Relaxed);
    let stop = if tape::chance(1, 2) { tape::range(0, count) } else { count };
    if tape::chance(1, 4) {
        FAIL_AT.store(stop, Relaxed);
    } else {
        NONE_AT.store(stop, Relaxed);
    }
    let (via, plan) = (pick_via(), Plan::legal());
    note!("  {count} records, stop after {stop}, {via:?} {plan:?}");
    let (r, _) = make(via, data, plan);
    let mut parser = SupParser::<_, Records>::new(r);
    for (i, w) in want.iter().enumerate().take(stop as usize) {
        let got = lib(|| parser.next());
        match got {
            Some(Ok(g)) if &g == w => {
                ev(Ev::Item, i as u64, g.0);
                compared(1);
            }
            Some(Ok((at, keep))) => fail!("wrong-item", "record {i}: {} bytes at {at} instead of {} at {}", keep.len(), w.1.len(), w.0),
            Some(Err(e)) => fail!("spurious-error", "record {i}: {e:?}"),
            None => fail!("lost-item", "record {i} of {stop} was not yielded"),
        }
    }
    if FAIL_AT.load(Relaxed) != u64::MAX {
        match lib(|| parser.next()) {
            Some(Err(PgsError::SegmentInvalidTypeCode { value: 77 })) => {}
            other => fail!("wrong-item", "the decoder's error came out as {:?}", other.map(|g| g.map(|g| g.0))),
        }
        probe(Ev::PErrReported);
        compared(1);
    } else {
        if lib(|| parser.next()).is_some() {
            fail!("not-ended", "the decoder ended after {stop} records, the parser went on");
        }
        // the decoder would have more to say now
        NONE_AT.store(u64::MAX, Relaxed);
        let calls = CALLS.load(Relaxed);
        for _ in 0..tape::urange(1, 4) {
            if lib(|| parser.next()).is_some() {
                fail!("not-ended", "an item came after the end");
            }
        }
        if CALLS.load(Relaxed) != calls {
            fail!("called-after-end", "the decoder was called again after it reported the end");
        }
        probe(Ev::PEndReached);
        compared(1);
    }
    if CALLS.load(Relaxed) != stop + 1 {
        fail!("calls", "the decoder was called {} times for {stop} items and the end", CALLS.load(Relaxed));
    }
}

pub fn c23() {
    if tape::chance(2, 3) {
        sequence();
    } else {
        own_decoder();
    }
}
