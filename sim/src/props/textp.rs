//! C13, C14: index reading and text output.

use super::pgsp::legal_fs;
use crate::io::{pick_cap, Chunk, Plan, SimReader, SimWriter, WPlan, ERROR_KINDS, READ_ERRNOS};
use crate::sys::fs;
use crate::tape::{self, Bulk};
use crate::world::{compared, ev, lib, probe, Ev};
use image::Rgb;
use std::cell::Cell;
use std::io::{self, BufReader, Write};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{Index, Palette, TimePointIdx, VobSubError};
use subtile::{srt, webvtt};

pub const DEFAULT: [[u8; 3]; 16] = [
    [0x00, 0x00, 0x00],
    [0xf0, 0xf0, 0xf0],
    [0xcc, 0xcc, 0xcc],
    [0x99, 0x99, 0x99],
    [0x33, 0x33, 0xfa],
    [0x11, 0x11, 0xbb],
    [0xfa, 0x33, 0x33],
    [0xbb, 0x11, 0x11],
    [0x33, 0xfa, 0x33],
    [0x11, 0xbb, 0x11],
    [0xfa, 0xfa, 0x33],
    [0xbb, 0xbb, 0x11],
    [0xfa, 0x33, 0xfa],
    [0xbb, 0x11, 0xbb],
    [0x33, 0xfa, 0xfa],
    [0x11, 0xbb, 0xbb],
];

/// A generated index file.
pub struct Idx {
    pub bytes: Vec<u8>,
    pub palette: Option<[[u8; 3]; 16]>,
    pub lang: Option<String>,
    /// why reading must fail
    pub bad: Option<&'static str>,
}
fn hex(b: &mut Bulk, v: u8, style: u64) -> String {
    let s = format!("{v:02x}");
    match style {
        0 => s,
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if b.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn other_line(b: &mut Bulk) -> String {
    match tape::below(14) {
        0 => "# VobSub index file, v7 (do not modify this line!)".into(),
        1 => String::new(),
        2 => format!("size: {}x{}", b.below(2000), b.below(2000)),
        3 => "org: 0, 0".into(),
        4 => "scale: 100%, 100%".into(),
        5 => format!("timestamp: 00:00:{:02}:{:03}, filepos: {:09x}", b.below(60), b.below(1000), b.below(1 << 30)),
        6 => "custom colors: OFF, tridx: 0000, colors: 000000, 000000, 000000, 000000".into(),
        7 => "langidx: 0".into(),
        8 => "# palette: 111111, 222222".into(),
        9 => "# id: xx, index: 9".into(),
        10 => "forced subs: OFF".into(),
        11 => "ünïcödé — 字幕: \u{1F600}".into(),
        12 => "palettes: zz".into(),
        _ => {
            let n = tape::pick(&[3usize, 80, 700, 9000]);
            let mut s = String::from("# ");
            for _ in 0..n {
                s.push(match b.below(12) {
                    0 => 'é',
                    1 => '字',
                    2 => ':',
                    3 => ' ',
                    k => (b'a' + k as u8) as char,
                });
            }
            s
        }
    }
}
/// Draws an index file. `bad`: may be malformed.
pub fn draw_idx(bad: bool) -> Idx {
    let mut b = tape::bulk();
    let mut x = Idx { bytes: Vec::new(), palette: None, lang: None, bad: None };
    let crlf = tape::below(3);
    if tape::chance(1, 60) {
        // one line for each subtitle of a film, ahead of the rest
        probe(Ev::PManyLines);
        for i in 0..tape::urange(60, 3000) {
            let t = b.below(9_000_000);
            x.bytes.extend_from_slice(format!("timestamp: {}, filepos: {:09x}{}", stamp(t as i64, ':'), i * 2048, if crlf == 1 { "\r\n" } else { "\n" }).as_bytes());
        }
    }
    let n = tape::urange(0, 14);
    let spoil_at = if bad { tape::urange(0, n.max(1) - 1) } else { usize::MAX };
    for i in 0..n {
        let mut line: Vec<u8>;
        let kind = if i == spoil_at { 3 + tape::below(2) as usize } else { tape::weighted(&[4, 2, 2]) };
        match kind {
            0 => line = other_line(&mut b).into_bytes(),
            1 => {
                let style = tape::below(3);
                let mut p = [[0u8; 3]; 16];
                let mut s = String::from("palette: ");
                for (k, c) in p.iter_mut().enumerate() {
                    *c = [b.byte(), b.byte(), b.byte()];
                    if k > 0 {
                        s.push_str(", ");
                    }
                    for v in c.iter() {
                        s.push_str(&hex(&mut b, *v, style));
                    }
                }
                if tape::chance(1, 6) {
                    s.push_str("  \t");
                }
                if tape::chance(1, 100) {
                    // padded with a lot of blanks
                    probe(Ev::PLongLine);
                    let n = if tape::chance(1, 8) { 1_100_000 } else { tape::urange(4_000, 140_000) };
                    s.push_str(&" ".repeat(n));
                }
                x.palette = Some(p);
                line = s.into_bytes();
            }
            2 => {
                let (s, l) = match tape::below(8) {
                    0 => ("id: --, index: 0".to_owned(), None),
                    1 => ("id: EN, index: 0".to_owned(), None),
                    2 => ("id: en".to_owned(), None),
                    _ => {
                        let n = tape::pick(&[2usize, 3, 1, 12, 40]);
                        let code: String = (0..n).map(|_| (b'a' + b.below(26) as u8) as char).collect();
                        (format!("id: {code}, index: {}", b.below(40)), Some(code))
                    }
                };
                x.lang = l;
                line = s.into_bytes();
            }
            3 => {
                // a palette line that states no palette
                let count = tape::pick(&[16usize, 15, 17, 1, 32, 16, 16]);
                let sep = if count == 16 && tape::chance(1, 3) { tape::pick(&[",", " , ", ";", " "]) } else { ", " };
                let mut parts: Vec<String> = (0..count).map(|_| format!("{:06x}", b.below(1 << 24))).collect();
                let mut tail = "";
                if count == 16 && sep == ", " {
                    let k = tape::urange(0, 15);
                    match tape::below(5) {
                        0 => parts[k] = "12345".into(),
                        1 => parts[k] = "1234567".into(),
                        2 => parts[k] = "12g456".into(),
                        3 => parts[k] = "+12345".into(),
                        _ => tail = tape::pick(&[",", ", ", " x", ", 12345"]),
                    }
                    // white space at the end of a line means nothing
                    if tail == ", " {
                        tail = ",";
                    }
                }
                line = format!("palette: {}{tail}", parts.join(sep)).into_bytes();
                x.bad = Some("malformed palette line");
            }
            _ => {
                line = other_line(&mut b).into_bytes();
                let at = tape::urange(0, line.len());
                // never splits a character into two valid halves: these bytes are invalid anywhere
                let v = tape::pick(&[0xffu8, 0xc0, 0xfe, 0xf8]);
                line.insert(at, v);
                x.bad = Some("invalid text");
            }
        }
        let last = i + 1 == n;
        if !(last && tape::chance(1, 3)) {
            match crlf {
                0 => line.push(b'\n'),
                1 => line.extend_from_slice(b"\r\n"),
                _ => line.extend_from_slice(if b.chance(1, 2) { b"\r\n" } else { b"\n" }),
            }
        }
        x.bytes.extend_from_slice(&line);
    }
    note!("  index of {} bytes, palette {:?}, language {:?}, must fail: {:?}", x.bytes.len(), x.palette.is_some(), x.lang, x.bad);
    x
}
pub fn check_index(what: &str, x: &Idx, r: &Result<Index, VobSubError>) {
    match (r, x.bad) {
        (Ok(_), Some(why)) => fail!("invented-index", "{what}: {why}, but reading succeeded"),
        (Ok(i), None) => {
            let want: Palette = x.palette.unwrap_or(DEFAULT).map(Rgb);
            if *i.palette() != want {
                let k = (0..16).find(|k| i.palette()[*k] != want[*k]).unwrap_or(0);
                fail!("wrong-palette", "{what}: colour {k} is {:?} instead of {:?}", i.palette()[k], want[k]);
            }
            let got = i.lang().as_ref().map(|l| l.lang().to_owned());
            if got != x.lang {
                fail!("wrong-language", "{what}: language {got:?} instead of {:?}", x.lang);
            }
            compared(1);
            probe(Ev::PImageOk);
        }
        (Err(_), Some(_)) => {
            compared(1);
            probe(Ev::PRefused);
        }
        (Err(e), None) => fail!("spurious-error", "{what}: a well-formed index is refused: {}", super::vobp::show(e)),
    }
}
/// Same error as the plan's?
pub fn same(e: &io::Error, kind: io::ErrorKind, errno: i32) -> bool {
    if errno != 0 {
        e.raw_os_error() == Some(errno)
    } else {
        e.raw_os_error().is_none() && e.kind() == kind
    }
}

pub fn c13() {
    let rounds = tape::pick(&[1, 1, 2, 3]);
    for round in 0..rounds {
        let bad = tape::chance(1, 4);
        let x = draw_idx(bad);
        if tape::chance(1, 4) {
            std::fs::write("s/in.idx", &x.bytes).expect("input");
            legal_fs();
            let r = lib(|| Index::open("s/in.idx"));
            fs().active = false;
            check_index("file", &x, &r);
            continue;
        }
        let mut plan = Plan::legal();
        let fail = tape::chance(1, 3);
        if fail {
            plan.kind = tape::pick(ERROR_KINDS);
            if tape::chance(1, 2) {
                plan.errno = tape::pick(READ_ERRNOS);
            }
            plan.fail_times = tape::pick(&[u32::MAX, 1]);
            if tape::chance(2, 3) {
                plan.fail_pos = tape::urange(0, x.bytes.len()) as u64;
            } else {
                plan.fail_fill = tape::range(0, 30) as u32;
            }
        }
        let mut cap = pick_cap();
        if x.bytes.len() > 5000 {
            // few draws for long ones
            plan.eintr = 0;
            plan.chunk = [Chunk::All, Chunk::Fixed(tape::urange(1, 5000))][tape::below(2) as usize];
            cap = cap.max(200);
        }
        let (kind, errno) = (plan.kind, plan.errno);
        note!("  round {round} {plan:?} buffer {cap}");
        let (r, seen) = SimReader::new(x.bytes.clone(), plan);
        let mapped = Cell::new(0u32);
        let mark = std::path::PathBuf::from(format!("marker-{round}"));
        let mkerr = |source: io::Error| {
            mapped.set(mapped.get() + 1);
            VobSubError::Io { source, path: mark.clone() }
        };
        let res = lib(|| Index::read_index(BufReader::with_capacity(cap, r), &mkerr));
        if seen.hard_errors > 0 {
            match &res {
                Ok(_) => fail!("hidden-failure", "the reader failed {} times but an index was returned", seen.hard_errors),
                Err(VobSubError::Io { source, path }) => {
                    if *path != mark || !same(source, kind, errno) {
                        fail!("wrong-cause", "a read failure {kind:?}/{errno} came out as {source:?} on {path:?}");
                    }
                    probe(Ev::PErrReported);
                    compared(1);
                }
                Err(e) => fail!("wrong-cause", "a read failure {kind:?}/{errno} was not passed through the error mapping: {}", super::vobp::show(e)),
            }
            continue;
        }
        if mapped.get() > 0 && x.bad != Some("invalid text") {
            fail!("spurious-error", "the error mapping was called without a failure");
        }
        check_index("reader", &x, &res);
    }
}

// ---------------------------------------------------------------- text output

/// `[-]HH:MM:SS` and milliseconds, computed on the unsigned value.
pub fn stamp(ms: i64, sep: char) -> String {
    let u = ms.unsigned_abs();
    let (h, m, s, k) = (u / 3_600_000, u / 60_000 % 60, u / 1000 % 60, u % 1000);
    format!("{}{h:02}:{m:02}:{s:02}{sep}{k:03}", if ms < 0 { "-" } else { "" })
}
pub fn draw_time() -> i64 {
    let edges: &[u64] = &[1, 999, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 86_400_000, 359_999_999, 360_000_000, 1 << 32, 1 << 53];
    let m = match tape::weighted(&[5, 3, 1]) {
        0 => tape::edgy(0, 400_000_000, edges),
        1 => tape::edgy(0, (1 << 63) - 1, edges),
        _ => (1 << 63) - 1 - tape::below(3),
    } as i64;
    if tape::chance(1, 4) {
        -m
    } else {
        m
    }
}
pub fn draw_text(b: &mut Bulk) -> String {
    match tape::below(7) {
        0 => String::new(),
        1 => "Hello".into(),
        2 => "Two\nlines".into(),
        3 => "  spaces, --> arrows, 12\n\nblank lines\r\n".into(),
        4 => "{} {0} %s %n \\ \u{0} tab\t".into(),
        5 => "éè 字幕 \u{1F600} \u{202e}rtl".into(),
        _ => {
            let n = tape::pick(&[10usize, 300, 9000]);
            (0..n).map(|_| char::from_u32(0x20 + b.below(0x500) as u32).unwrap_or('x')).collect()
        }
    }
}
pub fn srt_cue(i: usize, t: &TimeSpan, text: &str) -> String {
    format!("{i}\n{} --> {}\n{text}\n\n", stamp(t.start.msecs(), ','), stamp(t.end.msecs(), ','))
}
pub fn vtt_cue(t: &TimeSpan, text: &str) -> String {
    format!("{} --> {}\n{text}\n\n", stamp(t.start.msecs(), '.'), stamp(t.end.msecs(), '.'))
}
pub fn draw_span() -> TimeSpan {
    TimeSpan::new(TimePoint::from_msecs(draw_time()), TimePoint::from_msecs(draw_time()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Srt,
    SrtLine,
    Vtt,
}
/// Writes everything in the given form; stops at the first error.
pub fn produce(w: &mut impl Write, form: Form, subs: &[(TimeSpan, String)], base: usize) -> io::Result<()> {
    match form {
        Form::Srt => srt::write_srt(w, subs),
        Form::SrtLine => subs.iter().enumerate().try_for_each(|(i, (t, s))| srt::write_line(w, base + i, t, s)),
        Form::Vtt => subs.iter().try_for_each(|(t, s)| webvtt::write_line(w, t, s)),
    }
}
pub fn expected(form: Form, subs: &[(TimeSpan, String)], base: usize) -> String {
    subs.iter()
        .enumerate()
        .map(|(i, (t, s))| match form {
            Form::Srt => srt_cue(i + 1, t, s),
            Form::SrtLine => srt_cue(base + i, t, s),
            Form::Vtt => vtt_cue(t, s),
        })
        .collect()
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |v: &[u8]| String::from_utf8_lossy(&v[at.saturating_sub(20).min(v.len())..(at + 20).min(v.len())]).into_owned();
    format!("at byte {at}: {:?} instead of {:?} ({} and {} bytes)", show(a), show(b), a.len(), b.len())
}

pub fn c14() {
    let form = [Form::Srt, Form::SrtLine, Form::Vtt][tape::below(3) as usize];
    let mut b = tape::bulk();
    let mut n = match tape::weighted(&[6, 2, 1]) {
        0 => tape::urange(1, 4),
        1 => tape::urange(0, 30),
        _ => tape::pick(&[99usize, 100, 101]),
    };
    if tape::chance(1, 400) {
        n = tape::pick(&[999usize, 1500, 4200, 10_001, 66_000]);
        probe(Ev::PLongText);
    }
    let long = n > 500;
    let subs: Vec<(TimeSpan, String)> = if long {
        let mut t = move || TimePoint::from_msecs(b.below(1 << 40) as i64 - (1 << 36));
        (0..n).map(|i| (TimeSpan::new(t(), t()), format!("{i}"))).collect()
    } else {
        (0..n).map(|_| (draw_span(), if n > 30 { "x".to_owned() } else { draw_text(&mut b) })).collect()
    };
    let base = tape::edgy(1, u64::MAX >> 1, &[9, 99, 1000]) as usize;
    let want = expected(form, &subs, base);
    // the time points format the same way on their own
    if let Some((t, _)) = subs.first() {
        let got = lib(|| srt::TimePointSrt::from(t.start).to_string() + &webvtt::TimePointVtt::from(t.end).to_string() + &TimePointIdx::from(t.start).to_string());
        let exp = stamp(t.start.msecs(), ',') + &stamp(t.end.msecs(), '.') + &stamp(t.start.msecs(), ':');
        if got != exp {
            fail!("time-format", "{} and {} ms are shown as {got} instead of {exp}", t.start.msecs(), t.end.msecs());
        }
        // and mean the same number of seconds
        let (secs, exact) = (lib(|| t.start.to_secs()), t.start.msecs() as f64 / 1000.0);
        if (secs - exact).abs() > exact.abs() * 1e-12 {
            fail!("time-seconds", "{} ms are {secs} seconds", t.start.msecs());
        }
    }
    if !long && tape::chance(1, 6) {
        to_file(form, &subs, base, &want);
        return;
    }
    let mut plan = WPlan::CALM;
    if !long && tape::chance(3, 4) {
        plan.short = tape::range(0, 14);
        plan.eintr = tape::pick(&[0u64, 0, 4, 8]);
    }
    if tape::chance(1, 2) {
        plan.limit = match tape::weighted(&[3, 1, 1]) {
            0 => tape::range(0, want.len() as u64),
            1 => tape::range(0, 30),
            _ => (want.len() as u64).saturating_sub(tape::range(1, 12)),
        };
        plan.mode = tape::below(4);
        plan.kind = tape::pick(ERROR_KINDS);
        plan.errno = tape::pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EDQUOT, libc::EFBIG]);
    }
    note!("  {form:?}, {n} subtitles, {} bytes, {plan:?}", want.len());
    let mut w = SimWriter::new(plan);
    // the writer may be used directly, behind a reference or behind a small buffer
    let style = tape::below(4);
    let r = match style {
        0 | 1 => lib(|| produce(&mut w, form, &subs, base)),
        2 => lib(|| produce(&mut &mut w, form, &subs, base)),
        _ => {
            let mut lw = io::LineWriter::with_capacity(tape::urange(1, 64), &mut w);
            let r = lib(|| produce(&mut lw, form, &subs, base));
            let f = lib(|| lw.flush());
            std::mem::forget(lw); // its drop would write once more
            match (r, f) {
                (Ok(()), Ok(())) => Ok(()),
                (Err(e), _) | (Ok(()), Err(e)) => Err(e),
            }
        }
    };
    verdict(&w, &plan, style == 3, r, want.as_bytes());
}
fn verdict(w: &SimWriter, plan: &WPlan, buffered: bool, r: io::Result<()>, want: &[u8]) {
    match r {
        Ok(()) => {
            if w.failed > 0 {
                fail!("hidden-failure", "the writer failed after {} of {} bytes but success was returned", w.got.len(), want.len());
            }
            if w.got != want {
                fail!("wrong-text", "output differs {}", first_diff(&w.got, want));
            }
            compared(1);
            probe(Ev::PEndReached);
        }
        Err(e) => {
            if w.failed == 0 {
                fail!("spurious-error", "the writer never failed but the result is {e:?}");
            }
            if !want.starts_with(&w.got) {
                fail!("not-a-prefix", "after the failure the output is no prefix of the text: {}", first_diff(&w.got, want));
            }
            let ok = if plan.mode == 1 {
                e.kind() == io::ErrorKind::WriteZero
            } else if plan.mode >= 2 {
                same(&e, plan.kind, 0)
            } else {
                same(&e, plan.kind, plan.errno)
            };
            if !ok && !buffered {
                fail!("wrong-cause", "the writer failed with {:?} but the result is {e:?}", w.error());
            }
            probe(Ev::PErrReported);
            compared(1);
        }
    }
}
fn to_file(form: Form, subs: &[(TimeSpan, String)], base: usize, want: &str) {
    let mut f = std::fs::File::create("s/out.txt").expect("output");
    legal_fs();
    use std::os::fd::AsRawFd as _;
    fs().open_fds[f.as_raw_fd() as usize] = true;
    let mut errno = 0;
    if tape::chance(1, 2) {
        if tape::chance(1, 2) {
            fs().capacity = tape::range(0, want.len() as u64);
            errno = libc::ENOSPC;
        } else {
            errno = tape::pick(&[libc::EIO, libc::EDQUOT, libc::EPERM]);
            fs().hard[0] = Some(crate::sys::Hard { op: crate::sys::Op::Write, nth: tape::range(0, 12) as u32, errno, times: tape::pick(&[1, u32::MAX]) });
        }
    }
    let r = lib(|| produce(&mut f, form, subs, base));
    fs().active = false;
    let fired = fs().nfired > 0;
    let got = std::fs::read("s/out.txt").expect("output back");
    match r {
        Ok(()) => {
            if fired {
                fail!("hidden-failure", "writing the file failed (errno {errno}) but success was returned");
            }
            if got != want.as_bytes() {
                fail!("wrong-text", "file differs {}", first_diff(&got, want.as_bytes()));
            }
            probe(Ev::PEndReached);
        }
        Err(e) => {
            if !fired {
                fail!("spurious-error", "no write failed but the result is {e:?}");
            }
            if e.raw_os_error() != Some(errno) {
                fail!("wrong-cause", "a write failed with errno {errno}, the result is {e:?}");
            }
            if !want.as_bytes().starts_with(&got) {
                fail!("not-a-prefix", "after the failure the file is no prefix of the text: {}", first_diff(&got, want.as_bytes()));
            }
            probe(Ev::PErrReported);
        }
    }
    ev(Ev::ItemEnd, got.len() as u64, 0);
    compared(1);
}
