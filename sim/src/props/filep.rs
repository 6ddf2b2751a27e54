//! C15, C16, C18: image dumps, opening files, conversions that are killed and restarted.

use super::pgsp::{expect_end as pgs_end, expect_pair, items_of, Got};
use super::textp::{check_index, draw_idx, srt_cue};
use super::vobp;
use crate::pgs;
use crate::sys::{fs, Fs, Hard, Op};
use crate::tape;
use crate::vob;
use crate::world::{callback, compared, ev, lib, probe, Ev};
use image::{DynamicImage, ImageBuffer, Luma, LumaA, Rgb, Rgba};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufReader, Write as _};
use std::path::{Path, PathBuf};
use subtile::image::{dump_images, DumpError, ToImage as _};
use subtile::pgs::{DecodeTimeImage, PgsError, RleToImage, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{is_idx_file, is_sub_file, conv_to_rgba, Index, Sub, VobSubError, VobSubIndexedImage, VobSubToImage};
use subtile::SubtileError;

// ---------------------------------------------------------------- image dumps

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pix {
    L8,
    La8,
    Rgb8,
    Rgba8,
    L16,
    Rgba16,
}
type Buf8<P> = ImageBuffer<P, Vec<u8>>;
type Buf16<P> = ImageBuffer<P, Vec<u16>>;
pub enum Set {
    L8(Vec<Buf8<Luma<u8>>>),
    La8(Vec<Buf8<LumaA<u8>>>),
    Rgb8(Vec<Buf8<Rgb<u8>>>),
    Rgba8(Vec<Buf8<Rgba<u8>>>),
    L16(Vec<Buf16<Luma<u16>>>),
    Rgba16(Vec<Buf16<Rgba<u16>>>),
}
pub fn draw_set(n: usize) -> (Set, Vec<DynamicImage>) {
    let pix = tape::pick(&[Pix::L8, Pix::La8, Pix::Rgb8, Pix::Rgba8, Pix::L16, Pix::Rgba16]);
    let mut b = tape::bulk();
    let max = tape::pick(&[6u64, 30, 120]);
    let max = if n <= 4 && tape::chance(1, 60) { 900 } else { max };
    let dims: Vec<(u32, u32)> = if n > 100 {
        (0..n).map(|_| (1 + b.below(3) as u32, 1 + b.below(3) as u32)).collect()
    } else {
        (0..n).map(|_| (tape::range(1, max) as u32, tape::range(1, max) as u32)).collect()
    };
    // subtitles are often shown again
    let same = if tape::chance(1, 4) { 2 } else { 0 };
    if same > 0 {
        probe(Ev::PSameImages);
    }
    macro_rules! build {
        ($var:ident, $dynvar:ident, $p:ty, $s:ty, $k:expr) => {{
            let mut v: Vec<ImageBuffer<$p, Vec<$s>>> = dims
                .iter()
                .map(|(w, h)| {
                    // noise does not compress, flat areas do
                    let flat = b.chance(1, 3);
                    let c = b.below(1 << 16) as $s;
                    let raw: Vec<$s> = (0..(*w * *h * $k) as usize).map(|_| if flat { c } else { b.below(1 << 16) as $s }).collect();
                    ImageBuffer::from_raw(*w, *h, raw).expect("size")
                })
                .collect();
            for i in 1..v.len() {
                if same > 0 && b.chance(same, 3) {
                    v[i] = v[i - 1].clone();
                }
            }
            let d = v.iter().map(|i| DynamicImage::$dynvar(i.clone())).collect();
            (Set::$var(v), d)
        }};
    }
    match pix {
        Pix::L8 => build!(L8, ImageLuma8, Luma<u8>, u8, 1),
        Pix::La8 => build!(La8, ImageLumaA8, LumaA<u8>, u8, 2),
        Pix::Rgb8 => build!(Rgb8, ImageRgb8, Rgb<u8>, u8, 3),
        Pix::Rgba8 => build!(Rgba8, ImageRgba8, Rgba<u8>, u8, 4),
        Pix::L16 => build!(L16, ImageLuma16, Luma<u16>, u16, 1),
        Pix::Rgba16 => build!(Rgba16, ImageRgba16, Rgba<u16>, u16, 4),
    }
}
pub fn dump(path: &str, set: &Set, owned: bool) -> Result<(), SubtileError> {
    macro_rules! go {
        ($v:expr) => {
            if owned {
                dump_images(path, $v.clone().into_iter().inspect(|_| callback()))
            } else {
                dump_images(path, $v.iter().inspect(|_| callback()))
            }
        };
    }
    match set {
        Set::L8(v) => go!(v),
        Set::La8(v) => go!(v),
        Set::Rgb8(v) => go!(v),
        Set::Rgba8(v) => go!(v),
        Set::L16(v) => go!(v),
        Set::Rgba16(v) => go!(v),
    }
}
fn empty_one(set: &mut Set, i: usize, w: u32, h: u32) {
    match set {
        Set::L8(v) => v[i] = image::ImageBuffer::new(w, h),
        Set::La8(v) => v[i] = image::ImageBuffer::new(w, h),
        Set::Rgb8(v) => v[i] = image::ImageBuffer::new(w, h),
        Set::Rgba8(v) => v[i] = image::ImageBuffer::new(w, h),
        Set::L16(v) => v[i] = image::ImageBuffer::new(w, h),
        Set::Rgba16(v) => v[i] = image::ImageBuffer::new(w, h),
    }
}
/// Some other images of the same kind: each altered in a few samples, or moved to another place
/// (as an earlier dump of a similar set would have left them).
fn other_images(set: &Set) -> Set {
    let b = &mut tape::bulk();
    let shift = tape::pick(&[0usize, 0, 1, 2]);
    macro_rules! go {
        ($var:ident, $v:expr) => {{
            let mut v = $v.clone();
            let n = v.len();
            v.rotate_left(shift % n.max(1));
            if shift == 0 {
                for i in v.iter_mut() {
                    let len = i.as_raw().len() as u64;
                    for _ in 0..1 + b.below(4) {
                        let at = b.below(len) as usize;
                        let x: &mut [_] = &mut *i;
                        x[at] ^= 1;
                    }
                }
            }
            Set::$var(v)
        }};
    }
    match set {
        Set::L8(v) => go!(L8, v),
        Set::La8(v) => go!(La8, v),
        Set::Rgb8(v) => go!(Rgb8, v),
        Set::Rgba8(v) => go!(Rgba8, v),
        Set::L16(v) => go!(L16, v),
        Set::Rgba16(v) => go!(Rgba16, v),
    }
}
/// The length of the PNG data stream the bytes begin with (to the end of its last chunk).
fn png_len(bytes: &[u8]) -> Option<usize> {
    let mut at = 8;
    loop {
        let head = bytes.get(at..at + 8)?;
        let len = u32::from_be_bytes(head[..4].try_into().ok()?) as usize;
        at += 12 + len;
        if &head[4..] == b"IEND" {
            return Some(at);
        }
    }
}
/// Does the file hold this image, and nothing else?
pub fn same_image(p: &Path, want: &DynamicImage) -> Result<(), String> {
    let bytes = std::fs::read(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let got = image::load_from_memory_with_format(&bytes, image::ImageFormat::Png).map_err(|e| format!("{} ({} bytes): {e}", p.display(), bytes.len()))?;
    if (got.width(), got.height()) != (want.width(), want.height()) {
        return Err(format!("{} is {}x{} instead of {}x{}", p.display(), got.width(), got.height(), want.width(), want.height()));
    }
    // compare losslessly in the widest form
    if got.to_rgba16() != want.to_rgba16() {
        return Err(format!("{} holds other pixels", p.display()));
    }
    if png_len(&bytes) != Some(bytes.len()) {
        return Err(format!("{}: the image ends at byte {:?} of {}", p.display(), png_len(&bytes), bytes.len()));
    }
    Ok(())
}
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                m.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    m
}
fn errno_in(e: &(dyn std::error::Error + 'static)) -> Option<i32> {
    let mut cur: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = cur {
        if let Some(io) = x.downcast_ref::<std::io::Error>() {
            if let Some(n) = io.raw_os_error() {
                return Some(n);
            }
        }
        // the image crate hands its i/o error on by value
        if let Some(image::ImageError::IoError(io)) = x.downcast_ref::<image::ImageError>() {
            if let Some(n) = io.raw_os_error() {
                return Some(n);
            }
        }
        cur = x.source();
    }
    None
}

pub fn c15() {
    let mut n = match tape::weighted(&[5, 2, 1]) {
        0 => tape::urange(1, 4),
        1 => tape::urange(1, 12),
        _ => 0,
    };
    if tape::chance(1, 500) {
        n = tape::pick(&[120usize, 300, 300, 1100]);
        probe(Ev::PManyImages);
    }
    let (mut set, want) = draw_set(n);
    let path = tape::pick(&["s/out", "s/a/b/out", "s/out/", "./s/out", "s/é o.png", "s/out ", "s/ o\tut\n"]);
    // state of the folder beforehand
    let mut spoiled: Option<(&str, Option<usize>)> = None;
    match tape::weighted(&[5, 3, 2, 1, 2, 1, 2]) {
        6 => {
            // an earlier dump of other, similar images
            let other = other_images(&set);
            if let Err(e) = dump(path, &other, false) {
                fail!("spurious-error", "nothing failed, but the result is {e:?}");
            }
        }
        5 => {
            if n > 0 {
                // an image that no png file can hold
                let i = tape::urange(0, n - 1);
                let (w, h) = tape::pick(&[(0, 3), (3, 0), (0, 0)]);
                empty_one(&mut set, i, w, h);
                ev(Ev::SysSlow, i as u64, 0);
                spoiled = Some(("an image has no pixels", Some(i)));
            }
        }
        0 => {}
        1 => std::fs::create_dir_all(path).expect("folder"),
        2 => {
            // other files and the leftovers of an earlier dump
            std::fs::create_dir_all(path).expect("folder");
            let p = Path::new(path);
            std::fs::write(p.join("notes.txt"), b"keep me").expect("other");
            std::fs::write(p.join("000000.PNG.bak"), b"keep me too").expect("other");
            for i in 0..tape::urange(0, n + 2) {
                std::fs::write(p.join(format!("{i:06}.png")), vec![7u8; tape::pick(&[0usize, 10, 200_000])]).expect("old image");
            }
            std::fs::create_dir_all(p.join("sub")).expect("sub");
            std::fs::write(p.join("sub/000000.png"), b"keep").expect("other");
        }
        3 => {
            // a file stands where the folder (or a parent) should be
            let at = if path.contains("/b/") && tape::chance(1, 2) { "s/a" } else { path.trim_end_matches('/') };
            if let Some(p) = Path::new(at).parent() {
                std::fs::create_dir_all(p).expect("parents");
            }
            std::fs::write(at, b"in the way").expect("file");
            ev(Ev::SysSlow, 0, 0);
            spoiled = Some(("a file is in the way of the folder", None));
        }
        _ => {
            if n > 0 {
                std::fs::create_dir_all(path).expect("folder");
                let i = tape::urange(0, n - 1);
                std::fs::create_dir_all(Path::new(path).join(format!("{i:06}.png"))).expect("folder in the way");
                ev(Ev::SysSlow, i as u64, 0);
                spoiled = Some(("a folder is in the way of an image", Some(i)));
            }
        }
    }
    let before = snapshot(Path::new("s"));
    *fs() = Fs::new();
    let f = fs();
    f.active = true;
    if n <= 100 && tape::chance(1, 2) {
        f.short = tape::range(0, 12);
        f.eintr = tape::range(0, 5);
    }
    f.mkdir_race = tape::chance(1, 4);
    match tape::weighted(&[6, 6, 4, 4, 2, 1, 1]) {
        0 => {}
        5 => {
            f.hard[0] = Some(Hard {
                op: Op::Meta,
                nth: tape::range(0, n as u64 + 2) as u32,
                errno: tape::pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT]),
                times: tape::pick(&[1, u32::MAX]),
            });
        }
        6 => {
            f.hard[0] = Some(Hard {
                op: Op::Stat,
                nth: tape::range(0, 3) as u32,
                errno: tape::pick(&[libc::EIO, libc::EACCES, libc::ELOOP, libc::ENOMEM]),
                times: tape::pick(&[1, u32::MAX]),
            });
        }
        1 => {
            f.hard[0] = Some(Hard {
                op: Op::Write,
                nth: tape::range(0, 14) as u32,
                errno: tape::pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EROFS]),
                times: tape::pick(&[1, u32::MAX]),
            });
        }
        2 => f.capacity = tape::edgy(0, 4000, &[60, 100, 8192]),
        3 => {
            f.hard[0] = Some(Hard {
                op: Op::Open,
                nth: tape::range(0, n as u64) as u32,
                errno: tape::pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ENOSPC, libc::EROFS, libc::EIO]),
                times: tape::pick(&[1, u32::MAX]),
            });
        }
        _ => {
            f.hard[0] = Some(Hard {
                op: Op::Mkdir,
                nth: tape::range(0, 3) as u32,
                errno: tape::pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMLINK, libc::EDQUOT]),
                times: tape::pick(&[1, u32::MAX]),
            });
        }
    }
    note!("  {n} images to {path}, {:?} capacity {} race {}, {spoiled:?}", f.hard[0], f.capacity, f.mkdir_race);
    let r = lib(|| dump(path, &set, tape::chance(1, 2)));
    let f = fs();
    f.active = false;
    let fired = f.nfired > 0;
    let unknown = f.unknown > 0;
    let errno = f.last_fired().map(|x| x.1);
    let leaked = f.open_count();
    if leaked > 0 {
        fail!("leaked-file", "{leaked} files are still open after the dump");
    }
    let after = snapshot(Path::new("s"));
    let file = |i: usize| Path::new(path).join(format!("{i:06}.png"));
    let norm = |p: &Path| p.components().filter(|c| *c != std::path::Component::CurDir).collect::<PathBuf>();
    let (good, limit) = match &r {
        Ok(()) => {
            if let Some((why, _)) = spoiled {
                fail!("hidden-failure", "{why}, but the dump reports success");
            }
            if n == 0 && !Path::new(path).is_dir() {
                fail!("no-folder", "the dump reports success but the folder does not exist");
            }
            probe(Ev::PEndReached);
            (n, n)
        }
        Err(SubtileError::ImageDump(DumpError::Folder { path: p, .. })) => {
            if norm(p) != norm(Path::new(path)) {
                fail!("wrong-name", "the folder error names {p:?} instead of {path:?}");
            }
            if !fired && !unknown && !matches!(spoiled, Some((_, None))) {
                fail!("spurious-error", "nothing failed, but the result is {:?}", r);
            }
            probe(Ev::PErrReported);
            (0, 0)
        }
        Err(SubtileError::ImageDump(DumpError::DumpImage { filename, .. })) => {
            let Some(i) = (0..n).find(|i| norm(&file(*i)) == norm(filename)) else {
                fail!("wrong-name", "the error names {filename:?}, which is none of the {n} images");
            };
            if let Some((_, Some(k))) = spoiled {
                if i > k {
                    fail!("hidden-failure", "image {k} cannot be stored, the error names image {i}");
                }
            }
            if !fired && !unknown && !matches!(spoiled, Some((_, Some(k))) if k == i) {
                fail!("spurious-error", "nothing failed, but the result is {:?}", r);
            }
            probe(Ev::PErrReported);
            (i, i + 1)
        }
        Err(e) => fail!("wrong-error", "the dump failed with {e:?}"),
    };
    if let (Err(e), true, None) = (&r, fired, spoiled) {
        // the cause is the one the system gave
        let got = errno_in(e);
        // (the png encoder turns some of them into plain text)
        if got.is_some() && !f.fired.iter().flatten().any(|x| Some(x.1) == got) {
            fail!("wrong-cause", "the system reported errno {errno:?}, the error says {got:?}: {e:?}");
        }
    }
    for i in 0..good {
        if let Err(why) = same_image(&file(i), &want[i]) {
            fail!("damaged-image", "{} of {n} images should be stored intact ({}), but image {i}: {why}", good, if r.is_ok() { "success" } else { "those before the failing one" });
        }
        compared(1);
    }
    // nothing else appeared, changed or vanished
    // (the failing image may have been on its way under another name)
    let mut on_its_way = usize::from(limit > good);
    let image_name = |p: &Path| {
        let name = p.file_name().and_then(|x| x.to_str()).unwrap_or("");
        name.len() == 10 && name.ends_with(".png") && name.bytes().take(6).all(|c| c.is_ascii_digit())
    };
    let mine: std::collections::HashSet<PathBuf> = (0..limit).map(|i| norm(&file(i))).collect();
    for (p, bytes) in &after {
        if mine.contains(&norm(p)) {
            continue;
        }
        match before.get(p) {
            Some(b) if b == bytes => {}
            Some(_) => fail!("foreign-file", "{} was changed by the dump", p.display()),
            None if on_its_way > 0 && !image_name(p) && p.parent().map(norm) == Some(norm(Path::new(path))) => on_its_way -= 1,
            None => fail!("stored-after-failure", "{} was stored, only {limit} files may be", p.display()),
        }
    }
    for p in before.keys() {
        if !after.contains_key(p) {
            fail!("foreign-file", "{} vanished during the dump", p.display());
        }
    }
}

// ---------------------------------------------------------------- opening and probing

fn io_parts(e: &VobSubError) -> Option<(&std::io::Error, &PathBuf)> {
    match e {
        VobSubError::Io { source, path } => Some((source, path)),
        _ => None,
    }
}
/// The failure must name the path and carry the system's error.
fn check_io(what: &str, path: &str, fired: Option<(Op, i32)>, structural: Option<&str>, e: &VobSubError) {
    let Some((source, p)) = io_parts(e) else {
        fail!("wrong-error", "{what}: a system failure ({fired:?} {structural:?}) is reported as {e:?}");
    };
    if p != Path::new(path) {
        fail!("wrong-name", "{what}: the error names {p:?} instead of {path:?}");
    }
    if let Some((_, errno)) = fired {
        if source.raw_os_error() != Some(errno) {
            fail!("wrong-cause", "{what}: the system reported errno {errno}, the error carries {source:?}");
        }
    }
    probe(Ev::PErrReported);
    compared(1);
}

pub fn c16() {
    for _ in 0..tape::pick(&[1, 1, 2]) {
        c16_one();
    }
}
fn c16_one() {
    let path = tape::pick(&["s/in.sub", "s/ü x.idx", "./s/in", "s/in.sup"]);
    let what = tape::below(5);
    // what is stored
    let mut sh = vob::Shape::draw();
    sh.big = 0;
    sh.full = false;
    let mut v = None;
    let mut idx = None;
    let mut st = None;
    let mut bytes: Vec<u8> = match what {
        0 => {
            let x = vob::stream(tape::urange(0, 3), &sh);
            let b = x.bytes.clone();
            v = Some(x);
            b
        }
        1 => {
            let x = draw_idx(tape::chance(1, 6));
            let b = x.bytes.clone();
            idx = Some(x);
            b
        }
        2 => {
            let mut s = pgs::Shape::draw();
            s.huge = 0;
            let x = pgs::stream(tape::urange(0, 3), &s);
            let b = x.bytes.clone();
            st = Some(x);
            b
        }
        _ => {
            // probes: near misses and hits of either signature
            let sig: &[u8] = if tape::chance(1, 2) { b"# VobSub index file" } else { &[0, 0, 1, 0xba] };
            let mut b = sig.to_vec();
            match tape::below(6) {
                0 => b.extend_from_slice(b", v7 (do not modify this line!)\n"),
                1 => {
                    let n = tape::urange(0, b.len());
                    b.truncate(n);
                }
                2 => {
                    let i = tape::urange(0, b.len() - 1);
                    b[i] ^= 1 << tape::below(8);
                    b.extend_from_slice(b"more");
                }
                3 => {
                    b.insert(0, tape::pick(&[b' ', 0, 0xef]));
                }
                4 => {
                    let mut k = tape::bulk();
                    b.extend_from_slice(&k.bytes(tape::urange(0, 300)));
                }
                _ => {
                    let mut k = tape::bulk();
                    b = k.bytes(tape::urange(0, 60));
                }
            }
            b
        }
    };
    let mut structural: Option<&'static str> = None;
    match tape::weighted(&[10, 1, 1]) {
        0 => std::fs::write(path, &bytes).expect("input"),
        1 => {
            ev(Ev::SysSlow, 1, 0);
            let _ = std::fs::remove_file(path);
            structural = Some("missing file");
            // its neighbours are there, and are not what was asked for
            if tape::chance(1, 2) {
                for e in ["idx", "IDX", "sub", "SUB", "sup", "SUP", "bak"] {
                    let other = Path::new(path).with_extension(e);
                    if other != Path::new(path) {
                        std::fs::write(other, &bytes).expect("input");
                    }
                }
            }
        }
        _ => {
            ev(Ev::SysSlow, 2, 0);
            let _ = std::fs::remove_file(path);
            std::fs::create_dir_all(path).expect("folder");
            structural = Some("a folder");
        }
    }
    super::pgsp::legal_fs();
    let f = fs();
    // a pipe or a device has no size and no positions (which the .sup parser needs)
    f.pipe = what != 2 && tape::chance(1, 6);
    if tape::chance(1, 12) {
        f.hard[0] = Some(Hard {
            op: Op::Stat,
            nth: tape::range(0, 1) as u32,
            errno: tape::pick(&[libc::EIO, libc::EACCES, libc::EOVERFLOW, libc::ENOMEM]),
            times: tape::pick(&[1, u32::MAX]),
        });
    } else if tape::chance(1, 2) {
        let op = tape::pick(&[Op::Open, Op::Read, Op::Read, Op::Read]);
        f.hard[0] = Some(Hard {
            op,
            nth: if op == Op::Open { 0 } else { tape::range(0, 6) as u32 },
            errno: if op == Op::Open {
                tape::pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ELOOP, libc::EIO, libc::ENOMEM])
            } else {
                tape::pick(&[libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EBADF, libc::EAGAIN])
            },
            times: tape::pick(&[u32::MAX, 1, 2]),
        });
    }
    note!("  operation {what} on {path:?} ({} bytes, {structural:?}) {:?}", bytes.len(), f.hard[0]);
    match what {
        0 => {
            let r = lib(|| Sub::open(path));
            closed("Sub::open");
            let fired = fs().fired[0];
            fs().active = false;
            match (&r, fired.is_some() || structural.is_some()) {
                (Ok(_), true) => fail!("hidden-failure", "Sub::open succeeded although the system failed: {fired:?} {structural:?}"),
                (Ok(s), false) => {
                    let v = v.expect("model");
                    let mut it = lib(|| s.subtitles::<TimeSpan>());
                    for (i, u) in v.subs.iter().enumerate() {
                        let g = vobp::step(&mut it);
                        vobp::expect_sub("opened file", i, u, &g);
                    }
                    if vobp::step(&mut it).is_some() {
                        fail!("not-ended", "the opened file yields more subtitles than stored");
                    }
                    probe(Ev::PEndReached);
                }
                (Err(e), true) => check_io("Sub::open", path, fired, structural, e),
                (Err(e), false) if unknown() => check_io("Sub::open", path, None, None, e),
                (Err(e), false) => fail!("spurious-error", "Sub::open failed on a readable file: {e:?}"),
            }
        }
        1 => {
            let r = lib(|| Index::open(path));
            closed("Index::open");
            let fired = fs().fired[0];
            fs().active = false;
            match (&r, fired.is_some() || structural.is_some()) {
                (Ok(_), true) => fail!("hidden-failure", "Index::open succeeded although the system failed: {fired:?} {structural:?}"),
                (Err(e), true) => check_io("Index::open", path, fired, structural, e),
                (Err(e), false) if unknown() && io_parts(e).is_some() => check_io("Index::open", path, None, None, e),
                (_, false) => {
                    check_index("opened file", &idx.expect("model"), &r);
                    if let Err(e) = &r {
                        if let Some((_, p)) = io_parts(e) {
                            if p != Path::new(path) {
                                fail!("wrong-name", "the index error names {p:?} instead of {path:?}");
                            }
                        }
                    }
                }
            }
        }
        2 => {
            let r = lib(|| SupParser::<BufReader<File>, DecodeTimeImage>::from_file(path));
            let fired = fs().fired[0];
            match r {
                Err(e) => {
                    closed("from_file");
                    fs().active = false;
                    match &e {
                        PgsError::Io { source, path: p } => {
                            if p != Path::new(path) {
                                fail!("wrong-name", "from_file: the error names {p:?} instead of {path:?}");
                            }
                            match fired {
                                Some((_, errno)) => {
                                    if source.raw_os_error() != Some(errno) {
                                        fail!("wrong-cause", "from_file: the system reported errno {errno}, the error carries {source:?}");
                                    }
                                }
                                None => {
                                    if structural.is_none() && !unknown() {
                                        fail!("spurious-error", "from_file failed on a readable file: {e:?}");
                                    }
                                }
                            }
                            probe(Ev::PErrReported);
                            compared(1);
                        }
                        _ => fail!("wrong-error", "from_file: an open failure is reported as {e:?}"),
                    }
                }
                Ok(p) => {
                    if matches!(fired, Some((Op::Open, _))) || structural == Some("missing file") {
                        fail!("hidden-failure", "from_file succeeded although the file could not be opened");
                    }
                    let st = st.expect("model");
                    {
                        let mut it = items_of(p);
                        let mut i = 0;
                        loop {
                            let n0 = fs().nfired;
                            let g = it.step();
                            if fs().nfired > n0 || structural.is_some() {
                                if !matches!(g, Got::Err(..)) {
                                    fail!("hidden-failure", "a read failed ({structural:?}) but the item is {}", super::pgsp::name(&g));
                                }
                                probe(Ev::PErrReported);
                                compared(1);
                                break;
                            }
                            if i < st.pairs.len() {
                                expect_pair("opened file", &st, i, true, true, &g);
                                i += 1;
                            } else {
                                pgs_end("opened file", &g);
                                probe(Ev::PEndReached);
                                break;
                            }
                        }
                        lib(|| drop(it));
                    }
                    closed("dropping the parser");
                    fs().active = false;
                }
            }
        }
        _ => {
            let as_idx = tape::chance(1, 2);
            let sig: &[u8] = if as_idx { b"# VobSub index file" } else { &[0, 0, 1, 0xba] };
            let r = if as_idx { lib(|| is_idx_file(path)) } else { lib(|| is_sub_file(path)) };
            closed("probing");
            let fired = fs().fired[0];
            fs().active = false;
            match (&r, fired.is_some() || structural.is_some()) {
                (Ok(t), true) => fail!("hidden-failure", "the probe answered {t} although the system failed: {fired:?} {structural:?}"),
                (Err(e), true) => check_io("probe", path, fired, structural, e),
                (Ok(t), false) => {
                    if *t != bytes.starts_with(sig) {
                        fail!("wrong-probe", "the probe answers {t} for a file starting {:?}", &bytes[..bytes.len().min(20)]);
                    }
                    compared(1);
                    probe(Ev::PEndReached);
                }
                (Err(e), false) => {
                    if bytes.len() >= sig.len() && !unknown() {
                        fail!("spurious-error", "the probe failed on a readable file of {} bytes: {e:?}", bytes.len());
                    }
                    // shorter than the signature: an error naming the path is as good as a no
                    check_io("probe", path, None, Some("short file"), e);
                }
            }
        }
    }
    bytes.clear();
    let _ = std::fs::remove_dir_all("s");
    std::fs::create_dir("s").expect("scratch");
}
/// Did the system refuse to tell a file's size or type? An error is then as good as going on.
fn unknown() -> bool {
    fs().unknown > 0
}
fn closed(what: &str) {
    let n = fs().open_count();
    if n > 0 {
        fail!("leaked-file", "{what} leaves {n} files open");
    }
}

// ---------------------------------------------------------------- conversions

enum Source {
    Sup(pgs::Stream),
    Vob(vob::Vob),
}
struct Work {
    src: Source,
    vtt: bool,
}
const OUT: &str = "s/out";
const TXT: &str = "s/out.srt";
impl Work {
    fn count(&self) -> usize {
        match &self.src {
            Source::Sup(s) => s.pairs.len(),
            Source::Vob(v) => v.subs.len(),
        }
    }
    fn span(&self, i: usize) -> (i64, i64) {
        match &self.src {
            Source::Sup(s) => s.pairs[i].span_ms(),
            Source::Vob(v) => {
                let (a, b) = v.subs[i].span_ticks();
                ((a / 90) as i64, (b / 90) as i64)
            }
        }
    }
    fn image(&self, i: usize) -> DynamicImage {
        match &self.src {
            Source::Sup(s) => {
                let m = s.pairs[i].img.as_ref().expect("image");
                let raw: Vec<u8> = m.expected().iter().flat_map(|(y, a)| [*y, *a]).collect();
                DynamicImage::ImageLumaA8(ImageBuffer::from_raw(u32::from(m.w), u32::from(m.h), raw).expect("size"))
            }
            Source::Vob(v) => {
                let u = &v.subs[i];
                let raw: Vec<u8> = u.px.iter().flat_map(|p| {
                    let c = super::textp::DEFAULT[u.pal[*p as usize] as usize];
                    [c[0], c[1], c[2], u.alpha[*p as usize]]
                }).collect();
                DynamicImage::ImageRgba8(ImageBuffer::from_raw(u.w as u32, u.h as u32, raw).expect("size"))
            }
        }
    }
}
/// The application: open, iterate, dump the images, write the times. Every failure is returned.
fn convert(w: &Work) -> Result<(), String> {
    let say = |e: &dyn std::error::Error| format!("{e} {:?}", e.source().map(ToString::to_string));
    let mut subs: Vec<(TimeSpan, String)> = Vec::new();
    match &w.src {
        Source::Sup(_) => {
            let p = SupParser::<BufReader<File>, DecodeTimeImage>::from_file("s/in.sup").map_err(|e| say(&e))?;
            let mut imgs = Vec::new();
            for (i, s) in p.enumerate() {
                let (t, im) = s.map_err(|e| say(&e))?;
                subs.push((t, format!("{i:06}.png")));
                imgs.push(im);
            }
            dump_images(OUT, imgs.iter().map(|im| RleToImage::new(im, |p: LumaA<u8>| p).to_image())).map_err(|e| say(&e))?;
        }
        Source::Vob(_) => {
            let s = Sub::open("s/in.sub").map_err(|e| say(&e))?;
            let idx = Index::open("s/in.idx").map_err(|e| say(&e))?;
            let mut imgs = Vec::new();
            for (i, x) in s.subtitles::<(TimeSpan, VobSubIndexedImage)>().enumerate() {
                let (t, im) = x.map_err(|e| say(&e))?;
                subs.push((t, format!("{i:06}.png")));
                imgs.push(VobSubToImage::new(&im, idx.palette(), conv_to_rgba).to_image());
            }
            dump_images(OUT, imgs.iter()).map_err(|e| say(&e))?;
        }
    }
    let mut f = File::create(TXT).map_err(|e| say(&e))?;
    if w.vtt {
        for (t, s) in &subs {
            subtile::webvtt::write_line(&mut f, t, s).map_err(|e| say(&e))?;
        }
    } else {
        subtile::srt::write_srt(&mut f, &subs).map_err(|e| say(&e))?;
    }
    f.flush().map_err(|e| say(&e))
}
/// Are the outputs of a (possibly unfinished) conversion a prefix of the work?
fn check_prefix(w: &Work, complete: bool) {
    let n = w.count();
    let mut done = 0;
    let mut partial = false;
    for i in 0..n {
        let p = PathBuf::from(OUT).join(format!("{i:06}.png"));
        if !p.exists() {
            break;
        }
        match same_image(&p, &w.image(i)) {
            Ok(()) => done += 1,
            Err(why) => {
                if complete {
                    fail!("damaged-image", "after a conversion that reported success: {why}");
                }
                // this may be the file being written; nothing may follow it
                for k in i + 1..n {
                    let q = PathBuf::from(OUT).join(format!("{k:06}.png"));
                    if q.exists() && fresh(&q) {
                        fail!("damaged-image", "image {i} is damaged although image {k} was written after it: {why}");
                    }
                }
                partial = true;
                probe(Ev::PCrashMid);
                break;
            }
        }
    }
    if complete && done != n {
        fail!("missing-output", "success was reported but only {done} of {n} images are there");
    }
    // a killed life may leave the file it was writing under a name of its own
    let mut spare = *crate::sys::user(2);
    if let Ok(rd) = std::fs::read_dir(OUT) {
        for e in rd.flatten() {
            let name = e.file_name();
            if !(0..n).any(|i| name.to_str() == Some(&format!("{i:06}.png"))) {
                if spare == 0 {
                    fail!("foreign-file", "the conversion left {name:?} in the folder");
                }
                spare -= 1;
            }
        }
    }
    let mut txt = String::new();
    for i in 0..n {
        let (a, b) = w.span(i);
        let t = TimeSpan::new(subtile::time::TimePoint::from_msecs(a), subtile::time::TimePoint::from_msecs(b));
        let name = format!("{i:06}.png");
        txt.push_str(&if w.vtt { super::textp::vtt_cue(&t, &name) } else { srt_cue(i + 1, &t, &name) });
    }
    match std::fs::read(TXT) {
        Ok(got) => {
            if !txt.as_bytes().starts_with(&got) {
                fail!("wrong-text", "the text file is no prefix of the right one: {:?}", String::from_utf8_lossy(&got[..got.len().min(200)]));
            }
            if complete && got.len() != txt.len() {
                fail!("missing-output", "success was reported but the text is {} of {} bytes", got.len(), txt.len());
            }
            if (partial || done < n) && !got.is_empty() && *crate::sys::user(1) == 0 {
                fail!("out-of-order", "the times were written although only {done} of {n} images are complete");
            }
        }
        Err(_) => {
            if complete {
                fail!("missing-output", "success was reported but there is no text file");
            }
        }
    }
    compared(1 + done as u64);
}
/// Written in this life (and not left over by an earlier one)?
fn fresh(_: &Path) -> bool {
    *crate::sys::user(1) == 0
}

pub fn c18() {
    let w = Work {
        src: if tape::chance(1, 2) {
            let mut sh = pgs::Shape::draw();
            sh.huge = 0;
            sh.no_image = 0;
            sh.skip_max = sh.skip_max.min(400);
            let n = tape::urange(1, 5);
            let mut st = pgs::Stream::default();
            for _ in 0..n {
                pgs::put_pair(&mut st, &sh, Some(true));
            }
            std::fs::write("s/in.sup", &st.bytes).expect("input");
            Source::Sup(st)
        } else {
            let mut sh = vob::Shape::draw();
            sh.big = 0;
            sh.full = false;
            let v = vob::stream(tape::urange(1, 5), &sh);
            // exact whole milliseconds may come out one less: keep them out of the comparison
            if v.subs.iter().any(|u| u.span_ticks().0 % 90 == 0 || u.span_ticks().1 % 90 == 0) {
                return;
            }
            std::fs::write("s/in.sub", &v.bytes).expect("input");
            std::fs::write("s/in.idx", b"# VobSub index file, v7\nid: en, index: 0\n").expect("input");
            Source::Vob(v)
        },
        vtt: tape::chance(1, 3),
    };
    let lives = tape::urange(1, 4);
    *crate::sys::user(1) = 0;
    *crate::sys::user(2) = 0;
    for life in 0..=lives {
        let last = life == lives;
        // one process life
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            super::pgsp::legal_fs();
            let f = fs();
            if !last {
                f.crash_at = match tape::weighted(&[3, 2]) {
                    0 => tape::range(0, 40 + 14 * w.count() as u64),
                    _ => tape::range(0, 25),
                };
                if tape::chance(1, 5) {
                    f.hard[0] = Some(Hard { op: tape::pick(&[Op::Write, Op::Write, Op::Open, Op::Open, Op::Read, Op::Read, Op::Mkdir, Op::Meta, Op::Stat]), nth: tape::range(0, 12) as u32, errno: libc::EIO, times: 1 });
                }
            }
            ev(Ev::Life, life as u64, 0);
            let r = lib(|| convert(&w));
            let f = fs();
            f.active = false;
            match r {
                Ok(()) => {
                    if f.nfired > 0 {
                        crate::note!("  life {life}: success in spite of {:?}", f.last_fired());
                    }
                    crate::sys::raw_exit(78);
                }
                Err(e) => {
                    if f.nfired == 0 && f.unknown == 0 {
                        fail!("spurious-error", "nothing failed, but the conversion ended with {e}");
                    }
                    crate::note!("  life {life}: {e}");
                    crate::sys::raw_exit(79);
                }
            }
        }
        let mut status = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut status, 0) };
            if r == pid {
                break;
            }
        }
        if !libc::WIFEXITED(status) {
            fail!("killed", "the conversion was ended by signal {}", libc::WTERMSIG(status));
        }
        match libc::WEXITSTATUS(status) {
            77 => {
                *crate::sys::user(2) += 1;
                check_prefix(&w, false);
            }
            78 => {
                check_prefix(&w, true);
                probe(Ev::PRestartDone);
            }
            79 => check_prefix(&w, false),
            c => crate::sys::raw_exit(c), // the verdict is already recorded
        }
        *crate::sys::user(1) = 1;
        if last && libc::WEXITSTATUS(status) != 78 {
            fail!("not-completed", "an undisturbed restart did not complete the conversion");
        }
    }
}
