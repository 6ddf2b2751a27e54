//! C01–C07: PGS parsing under delivery schedules, stops, failures, cuts, damage, growth.

use crate::io::{make, pick_cap, pick_via, BufSeek, Plan, Seen, SimReader, Via, ERROR_KINDS, READ_ERRNOS};
use crate::pgs::{check_image, put_pair, span_of, stream, Shape, Stream, END, ODS, PDS};
use crate::sys::{fs, Fs};
use crate::tape;
use crate::world::{compared, ev, lib, probe, Ev};
use image::{Luma, LumaA, Rgb, Rgba};
use std::fs::File;
use std::io::BufReader;
use std::sync::Arc;
use subtile::image::{luma_a_to_luma, luma_a_to_luma_convertor, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;

/// One step of either decoder, reduced to what can be compared.
pub enum Got {
    Span((i64, i64)),
    Image((i64, i64), RleEncodedImage),
    Missing,
    Err(String, PgsError),
    End,
}
pub fn name(g: &Got) -> String {
    match g {
        Got::Span(t) => format!("{t:?}"),
        Got::Image(t, i) => format!("{t:?} with a {}x{} image", i.width(), i.height()),
        Got::Missing => "missing-image error".into(),
        Got::Err(s, _) => format!("error {s}"),
        Got::End => "end".into(),
    }
}
fn err_got(e: PgsError) -> Got {
    if matches!(e, PgsError::MissingImage) {
        ev(Ev::ItemErr, 1, 0);
        Got::Missing
    } else {
        ev(Ev::ItemErr, 2, 0);
        // errors must be printable, with their causes
        let mut s = lib(|| format!("{e:?}"));
        let mut src: Option<&dyn std::error::Error> = Some(&e);
        while let Some(x) = src {
            s.push_str(" / ");
            s.push_str(&lib(|| x.to_string()));
            src = x.source();
        }
        Got::Err(s, e)
    }
}

/// Either decoder behind one face.
pub trait Items {
    fn step(&mut self) -> Got;
}
pub struct Times<R: std::io::BufRead + std::io::Seek>(pub SupParser<R, DecodeTimeOnly>);
pub struct Images<R: std::io::BufRead + std::io::Seek>(pub SupParser<R, DecodeTimeImage>);
impl<R: std::io::BufRead + std::io::Seek> Items for Times<R> {
    fn step(&mut self) -> Got {
        match lib(|| self.0.next()) {
            None => {
                ev(Ev::ItemEnd, 0, 0);
                Got::End
            }
            Some(Ok(t)) => {
                ev(Ev::Item, t.start.msecs() as u64, t.end.msecs() as u64);
                Got::Span(span_of(&t))
            }
            Some(Err(e)) => err_got(e),
        }
    }
}
impl<R: std::io::BufRead + std::io::Seek> Items for Images<R> {
    fn step(&mut self) -> Got {
        match lib(|| self.0.next()) {
            None => {
                ev(Ev::ItemEnd, 0, 0);
                Got::End
            }
            Some(Ok((t, i))) => {
                ev(Ev::Item, t.start.msecs() as u64, t.end.msecs() as u64);
                let t: TimeSpan = t;
                Got::Image(span_of(&t), i)
            }
            Some(Err(e)) => err_got(e),
        }
    }
}
pub fn items<'a, R: std::io::BufRead + std::io::Seek + 'a>(r: R, image: bool) -> Box<dyn Items + 'a> {
    if image {
        Box::new(Images(lib(|| SupParser::<R, DecodeTimeImage>::new(r))))
    } else {
        Box::new(Times(lib(|| SupParser::<R, DecodeTimeOnly>::new(r))))
    }
}

pub fn items_of<'a, R: std::io::BufRead + std::io::Seek + 'a>(p: SupParser<R, DecodeTimeImage>) -> Box<dyn Items + 'a> {
    Box::new(Images(p))
}

/// Opens `s/in.sup` by path.
fn open_file(image: bool) -> Result<Box<dyn Items>, PgsError> {
    Ok(if image {
        items_of(lib(|| SupParser::<BufReader<File>, DecodeTimeImage>::from_file("s/in.sup"))?)
    } else {
        Box::new(Times(lib(|| SupParser::<BufReader<File>, DecodeTimeOnly>::from_file("s/in.sup"))?))
    })
}

/// The item must be pair `i` of the stream.
pub fn expect_pair(what: &str, st: &Stream, i: usize, image: bool, pixels: bool, got: &Got) {
    let p = &st.pairs[i];
    let want = p.span_ms();
    match (got, image, &p.img) {
        (Got::Span(t), false, _) if *t == want => {}
        (Got::Image(t, g), true, Some(m)) if *t == want => {
            if pixels {
                check_image(what, i, m, g);
            } else if (g.width(), g.height()) != (u32::from(m.w), u32::from(m.h)) {
                fail!("image-size", "{what}: image {i} is {}x{}, encoded {}x{}", g.width(), g.height(), m.w, m.h);
            }
        }
        (Got::Missing, true, None) => {}
        (g, _, m) => {
            let class = match g {
                Got::End => "lost-subtitle",
                Got::Err(..) => "spurious-error",
                Got::Missing => "spurious-missing-image",
                _ => "wrong-subtitle",
            };
            crate::world::violate(
                format_args!("{class}"),
                format_args!(
                    "{what}: subtitle {i} of {} should be {want:?}{}, got {}",
                    st.pairs.len(),
                    if !image { "" } else if m.is_some() { " with image" } else { " reported as missing image" },
                    name(g)
                ),
            )
        }
    }
    compared(1);
}
pub fn expect_end(what: &str, got: &Got) {
    if !matches!(got, Got::End) {
        fail!("not-ended", "{what}: expected the end, got {}", name(got));
    }
}
pub fn class_err(g: &Got) -> bool {
    matches!(g, Got::Err(..))
}

fn whole(what: &str, st: &Stream, it: &mut dyn Items, image: bool, pixels: bool) {
    for i in 0..st.pairs.len() {
        let g = it.step();
        expect_pair(what, st, i, image, pixels, &g);
    }
    for _ in 0..tape::urange(1, 3) {
        let g = it.step();
        expect_end(what, &g);
    }
    probe(Ev::PEndReached);
}

/// Legal disk: short reads and interruptions only.
pub fn legal_fs() {
    *fs() = Fs::new();
    let f = fs();
    f.active = true;
    if tape::chance(3, 4) {
        f.short = tape::range(0, 12);
    }
    if tape::chance(1, 2) {
        f.eintr = tape::range(0, 6);
    }
}
/// Runs `go` over the stream through a drawn medium.
pub fn through(st: &Stream, image: bool, go: &mut dyn FnMut(&str, &mut dyn Items)) {
    if tape::chance(1, 6) {
        std::fs::write("s/in.sup", &st.bytes).expect("input");
        legal_fs();
        if image {
            let p = lib(|| SupParser::<BufReader<File>, DecodeTimeImage>::from_file("s/in.sup"));
            match p {
                Ok(p) => go("file, images", &mut Images(p)),
                Err(e) => fail!("open-failed", "from_file failed on a healthy disk: {e:?}"),
            }
        } else {
            let p = lib(|| SupParser::<BufReader<File>, DecodeTimeOnly>::from_file("s/in.sup"));
            match p {
                Ok(p) => go("file, times", &mut Times(p)),
                Err(e) => fail!("open-failed", "from_file failed on a healthy disk: {e:?}"),
            }
        }
        fs().active = false;
        return;
    }
    let via = pick_via();
    let plan = Plan::legal();
    note!("  via {via:?} {plan:?} image={image}");
    let (r, _) = make(via, st.bytes.clone(), plan);
    let mut it = items(r, image);
    go(if image { "images" } else { "times" }, &mut *it);
}

fn small_count() -> usize {
    match tape::weighted(&[5, 2, 1]) {
        0 => tape::urange(1, 4),
        1 => tape::urange(1, 12),
        _ => 0,
    }
}

pub fn c01() {
    if tape::chance(1, 4000) {
        return super::memp::pgs_long(false);
    }
    let rounds = tape::pick(&[1, 1, 2, 3]);
    for _ in 0..rounds {
        let sh = Shape::draw();
        let st = stream(small_count(), &sh);
        let both = tape::below(3);
        for image in [false, true] {
            if (both == 1 && image) || (both == 2 && !image) {
                continue;
            }
            through(&st, image, &mut |w, it| whole(w, &st, it, image, false));
        }
    }
}

/// A conversion closure is caller's code: it may use the library or panic.
pub fn cb<T>(v: T) -> T {
    crate::world::callback();
    v
}
pub fn render_checks(i: usize, want: &crate::pgs::Img, g: &RleEncodedImage) {
    let exp = want.expected();
    let (w, h) = (u32::from(want.w), u32::from(want.h));
    let what = tape::below(8);
    match what {
        0 => {
            let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| cb(Luma([p.0[0] ^ p.0[1].rotate_left(3)]))).to_image());
            let raw: Vec<u8> = exp.iter().map(|(y, a)| y ^ a.rotate_left(3)).collect();
            cmp_raw("luma rendering", i, (im.width(), im.height()), (w, h), im.as_raw(), &raw);
        }
        1 => {
            let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| cb(Rgba([p.0[0], 7, p.0[1], p.0[0].wrapping_sub(p.0[1])]))).to_image());
            let raw: Vec<u8> = exp.iter().flat_map(|(y, a)| [*y, 7, *a, y.wrapping_sub(*a)]).collect();
            cmp_raw("rgba rendering", i, (im.width(), im.height()), (w, h), im.as_raw(), &raw);
        }
        2 => {
            let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| cb(Rgb([p.0[1], p.0[0], 9]))).to_image());
            let raw: Vec<u8> = exp.iter().flat_map(|(y, a)| [*a, *y, 9]).collect();
            cmp_raw("rgb rendering", i, (im.width(), im.height()), (w, h), im.as_raw(), &raw);
        }
        3 => {
            let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| cb(p)).to_image());
            let raw: Vec<u8> = exp.iter().flat_map(|(y, a)| [*y, *a]).collect();
            cmp_raw("luma-alpha rendering", i, (im.width(), im.height()), (w, h), im.as_raw(), &raw);
        }
        4 => {
            let px: Vec<(u16, u16)> = lib(|| {
                g.pixels::<u16>(|e| cb(LumaA([u16::from(e.luminance) * 257, u16::from(e.transparency) * 3])))
                    .map(|p| (p.0[0], p.0[1]))
                    .collect()
            });
            let exp16: Vec<(u16, u16)> = want
                .ids
                .iter()
                .map(|id| want.pal[*id as usize].map_or((u16::MAX, 0), |(y, a)| (u16::from(y) * 257, u16::from(a) * 3)))
                .collect();
            if px != exp16 {
                fail!("image-pixels", "image {i}: converted pixels differ");
            }
        }
        5 | 6 => {
            // the library's own conversions, at thresholds on and beside values of the image
            let (ly, la) = exp[tape::below(exp.len() as u64) as usize];
            let jitter = |v: u8| match tape::below(4) {
                0 => v,
                1 => v.saturating_add(1),
                2 => v.saturating_sub(1),
                _ => tape::below(256) as u8,
            };
            let (mut lt, mut at) = (jitter(ly), jitter(la));
            let opt = ToOcrImageOpt::default();
            let im = if what == 5 {
                lib(|| RleToImage::new(g, luma_a_to_luma_convertor(at, lt)).image(&opt))
            } else {
                (at, lt) = tape::pick(&[(100, 100), (1, 1), (255, 1), (1, 255), (0, 128), (128, 0)]);
                lib(|| match (at, lt) {
                    (100, 100) => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 100, 100>).image(&opt),
                    (1, 1) => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 1, 1>).image(&opt),
                    (255, 1) => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 255, 1>).image(&opt),
                    (1, 255) => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 1, 255>).image(&opt),
                    (0, 128) => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 0, 128>).image(&opt),
                    _ => RleToImage::new(g, luma_a_to_luma::<LumaA<u8>, u8, 128, 0>).image(&opt),
                })
            };
            // by default a white border of five pixels
            let (ow, oh) = (w + 10, h + 10);
            let mut raw = vec![255; (ow * oh) as usize];
            for y in 0..h {
                for x in 0..w {
                    let (l, a) = exp[(y * w + x) as usize];
                    if a >= at && l >= lt {
                        raw[((y + 5) * ow + x + 5) as usize] = 0;
                    }
                }
            }
            cmp_raw("thresholded ocr rendering", i, (im.width(), im.height()), (ow, oh), im.as_raw(), &raw);
        }
        _ => {
            let border = if w.max(h) < 64 && tape::chance(1, 40) { tape::range(250, 300) as u32 } else { tape::pick(&[0u32, 1, 5, 17]) };
            let bg = tape::pick(&[255u8, 0, 77]);
            let opt = ToOcrImageOpt { border, text_color: Luma([3]), background_color: Luma([bg]) };
            let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| cb(Luma([p.0[0] ^ p.0[1]]))).image(&opt));
            let (ow, oh) = (w + 2 * border, h + 2 * border);
            let mut raw = vec![bg; (ow * oh) as usize];
            for y in 0..h {
                for x in 0..w {
                    let (l, a) = exp[(y * w + x) as usize];
                    raw[((y + border) * ow + x + border) as usize] = l ^ a;
                }
            }
            cmp_raw("ocr rendering", i, (im.width(), im.height()), (ow, oh), im.as_raw(), &raw);
        }
    }
}
pub fn cmp_raw(what: &str, i: usize, got_dim: (u32, u32), dim: (u32, u32), got: &[u8], want: &[u8]) {
    if got_dim != dim {
        fail!("render-size", "{what} of image {i} is {got_dim:?}, should be {dim:?}");
    }
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
        fail!("render-pixels", "{what} of image {i} {dim:?} differs first at byte {at}: {:?} instead of {:?}", got.get(at), want.get(at));
    }
    compared(1);
}

pub fn c02() {
    let rounds = tape::pick(&[1, 1, 2]);
    for _ in 0..rounds {
        let mut sh = Shape::draw();
        sh.skip_max = sh.skip_max.min(300);
        sh.huge = tape::pick(&[0, 0, 0, 2]);
        sh.hd = 1;
        let st = stream(tape::urange(1, 4), &sh);
        let n = st.pairs.len();
        through(&st, true, &mut |w, it| {
            for i in 0..n {
                let g = it.step();
                expect_pair(w, &st, i, true, true, &g);
                if let (Got::Image(_, g), Some(m)) = (&g, &st.pairs[i].img) {
                    render_checks(i, m, g);
                    // the pixel iterator knows how many pixels are left
                    let total = m.ids.len();
                    let k = tape::urange(0, total.min(40));
                    let left = lib(|| {
                        let mut itr = g.iter();
                        for _ in 0..k {
                            itr.next();
                        }
                        itr.len()
                    });
                    if left != total - k {
                        fail!("iterator-length", "image {i}: after {k} of {total} pixels the iterator claims {left} more");
                    }
                    // a copy is as good as the original
                    if tape::chance(1, 4) {
                        let c = lib(|| g.clone());
                        check_image("clone", i, m, &c);
                    }
                }
            }
            expect_end(w, &it.step());
        });
    }
}

pub fn c03() {
    let mut sh = Shape::draw();
    sh.huge = 0;
    let st = stream(tape::urange(1, 8), &sh);
    let n = st.pairs.len();
    let via = pick_via();
    let plan = Plan::legal();
    note!("  via {via:?} {plan:?}");
    let mut at = 0u64;
    let mut done = 0usize;
    let mut reader: Box<dyn BufSeek> = make(via, st.bytes.clone(), plan).0;
    let mut lives = 0;
    loop {
        let image = tape::chance(1, 2);
        let k = tape::urange(1, 3);
        lives += 1;
        {
            let mut it = items(&mut reader, image);
            for _ in 0..k {
                let g = it.step();
                if done == n {
                    expect_end("restarted parser", &g);
                    probe(Ev::PEndReached);
                    return;
                }
                expect_pair("restarted parser", &st, done, image, true, &g);
                done += 1;
            }
        }
        ev(Ev::Stop, done as u64, lives);
        let pos = reader.stream_position().expect("position");
        if pos != st.ends[done - 1] as u64 {
            fail!(
                "resume-position",
                "after subtitle {} the reader stands at {pos}, the pair ends at {}",
                done - 1,
                st.ends[done - 1]
            );
        }
        at = at.max(pos);
        if tape::chance(1, 3) {
            // crash: only the recorded offset survives
            let via = pick_via();
            let mut r = make(via, st.bytes.clone(), Plan::legal()).0;
            r.seek(std::io::SeekFrom::Start(pos)).expect("seek");
            reader = r;
        }
    }
}

pub fn hard_plan(st: &Stream) -> Plan {
    hard_plan_at(&mut || interesting(st))
}
/// A reader that fails somewhere in `len` bytes.
pub fn hard_plan_len(len: usize) -> Plan {
    hard_plan_at(&mut || tape::urange(0, len))
}
fn hard_plan_at(at: &mut dyn FnMut() -> usize) -> Plan {
    let mut plan = Plan::legal();
    plan.kind = tape::pick(ERROR_KINDS);
    if tape::chance(1, 2) {
        plan.errno = tape::pick(READ_ERRNOS);
    }
    plan.fail_times = tape::pick(&[u32::MAX, 1, 2]);
    match tape::weighted(&[6, 2, 2]) {
        0 => plan.fail_pos = at() as u64,
        1 => plan.fail_seek = tape::range(0, 12) as u32,
        _ => plan.fail_fill = tape::range(0, 60) as u32,
    }
    plan
}
/// A byte position: near segment headers, inside payloads, or anywhere.
pub fn interesting(st: &Stream) -> usize {
    let len = st.bytes.len();
    if st.segs.is_empty() {
        return 0;
    }
    match tape::weighted(&[4, 3, 3, 1]) {
        0 => {
            let s = tape::pick(&st.segs);
            (s.at + tape::urange(0, 13)).min(len)
        }
        1 => {
            let s = tape::pick(&st.segs);
            (s.at + 13 + tape::urange(0, s.len)).min(len)
        }
        2 => {
            let want: Vec<_> = st.segs.iter().filter(|s| s.kind == PDS || s.kind == ODS).copied().collect();
            if want.is_empty() {
                tape::urange(0, len)
            } else {
                let s = tape::pick(&want);
                (s.at + 13 + tape::urange(0, s.len)).min(len)
            }
        }
        _ => tape::urange(0, len),
    }
}

pub fn c04() {
    let mut sh = Shape::draw();
    sh.huge = 0;
    let st = stream(tape::urange(1, 7), &sh);
    let image = tape::chance(2, 3);
    if tape::chance(1, 8) {
        c04_file(&st, image);
        return;
    }
    let mut plan = hard_plan(&st);
    plan.interrupt_seeks();
    let via = if tape::chance(1, 2) { Via::Direct } else { Via::Buffered(pick_cap()) };
    note!("  via {via:?} {plan:?} image={image}");
    let (r, seen): (_, &mut Seen) = make(via, st.bytes.clone(), plan);
    let mut it = items(r, image);
    for i in 0..=st.pairs.len() {
        let before = seen.hard_errors;
        let g = it.step();
        if seen.hard_errors > before && !(plan.transient() && !class_err(&g)) {
            if !class_err(&g) {
                fail!(
                    "hidden-failure",
                    "the reader failed ({plan:?}) while subtitle {i} of {} was read, but the item is: {}",
                    st.pairs.len(),
                    name(&g)
                );
            }
            probe(Ev::PErrReported);
            compared(1);
            return;
        }
        if i < st.pairs.len() {
            expect_pair("before the failure", &st, i, image, true, &g);
            probe(Ev::PPrefixKept);
        } else {
            expect_end("no failure struck", &g);
            probe(Ev::PEndReached);
        }
    }
}

/// The same with a file opened by path, on a disk that fails.
fn c04_file(st: &Stream, image: bool) {
    std::fs::write("s/in.sup", &st.bytes).expect("input");
    legal_fs();
    if tape::chance(1, 2) {
        // many small deliveries
        fs().short = 16;
    }
    fs().hard[0] = Some(crate::sys::Hard {
        op: if tape::chance(4, 5) { crate::sys::Op::Read } else { crate::sys::Op::Seek },
        nth: tape::range(0, tape::pick(&[3, 20, 100])) as u32,
        errno: tape::pick(READ_ERRNOS),
        times: tape::pick(&[1, 2, u32::MAX]),
    });
    note!("  file, {:?} image={image}", fs().hard[0]);
    let mut it = match open_file(image) {
        Ok(it) => it,
        Err(e) => {
            if fs().nfired == 0 {
                fail!("open-failed", "from_file failed on a healthy disk: {e:?}");
            }
            probe(Ev::PErrReported);
            compared(1);
            return;
        }
    };
    match fs().fired[0] {
        None => {}
        Some((crate::sys::Op::Read, _)) => fail!("hidden-failure", "the disk failed while the file was opened, but from_file succeeded"),
        // where the file stands may be asked without a need to know
        Some(_) => return,
    }
    for i in 0..=st.pairs.len() {
        let g = it.step();
        if fs().nfired > 0 {
            if !class_err(&g) {
                fail!("hidden-failure", "the disk failed while subtitle {i} of {} was read, but the item is: {}", st.pairs.len(), name(&g));
            }
            probe(Ev::PErrReported);
            compared(1);
            return;
        }
        if i < st.pairs.len() {
            expect_pair("file, before the failure", st, i, image, true, &g);
            probe(Ev::PPrefixKept);
        } else {
            expect_end("file, no failure struck", &g);
            probe(Ev::PEndReached);
        }
    }
}

pub fn c05() {
    let mut sh = Shape::draw();
    sh.huge = 0;
    let st = stream(tape::urange(1, 6), &sh);
    let image = tape::chance(2, 3);
    let cut = interesting(&st);
    ev(Ev::Cut, cut as u64, st.bytes.len() as u64);
    // is the cut inside a payload the decoder needs?
    let mut needed = false;
    if image {
        for (i, p) in st.pairs.iter().enumerate() {
            if p.img.is_none() {
                continue;
            }
            let first_end = st.segs.iter().find(|s| s.at >= st.begin_of(i) && s.kind == END).expect("end segment").at;
            for s in st.segs.iter().filter(|s| s.at >= st.begin_of(i) && s.at < first_end) {
                if (s.kind == PDS || s.kind == ODS) && cut >= s.at + 13 && cut < s.at + 13 + s.len {
                    needed = true;
                }
            }
        }
    }
    if needed {
        probe(Ev::PCutPayload);
    }
    let kept = st.ends.iter().filter(|e| **e <= cut).count();
    let mut cutst = st.clone();
    cutst.bytes.truncate(cut);
    note!("  cut at {cut} of {}, {kept} pairs complete, needed payload: {needed}", st.bytes.len());
    through(&cutst, image, &mut |w, it| {
        for i in 0..kept {
            let g = it.step();
            expect_pair(w, &st, i, image, true, &g);
            probe(Ev::PPrefixKept);
        }
        let g = it.step();
        match &g {
            Got::End => {
                if needed {
                    fail!("silent-cut", "{w}: the stream ends inside a palette or bitmap payload (byte {cut}) but the end looks clean");
                }
            }
            Got::Err(..) => {
                probe(Ev::PErrReported);
                compared(1);
                let g2 = it.step();
                if !matches!(g2, Got::End) {
                    fail!("not-ended", "{w}: after the error at the cut (byte {cut}) came {}", name(&g2));
                }
            }
            Got::Missing => {
                // an error too, but only one may follow
                let g2 = it.step();
                if !matches!(g2, Got::End) {
                    fail!("not-ended", "{w}: after the error at the cut (byte {cut}) came {}", name(&g2));
                }
            }
            _ => fail!("invented-subtitle", "{w}: subtitle {kept} is cut off at byte {cut} but was yielded: {}", name(&g)),
        }
        expect_end(w, &it.step());
    });
}

/// Applies drawn storage faults; returns the offset of the first damaged byte.
pub fn damage_bytes(b: &mut Vec<u8>, n: usize, at: &mut dyn FnMut(usize) -> usize) -> (usize, usize) {
    let mut first = usize::MAX;
    let mut last = 0;
    for _ in 0..n {
        let len = b.len();
        if len == 0 {
            break;
        }
        let p = at(len).min(len - 1);
        match tape::weighted(&[5, 5, 2, 2, 2, 1]) {
            0 => {
                let bit = tape::below(8);
                b[p] ^= 1 << bit;
                ev(Ev::FlipBit, p as u64, bit);
                first = first.min(p);
                last = last.max(p + 1);
            }
            1 => {
                let v = match tape::below(4) {
                    0 => 0,
                    1 => 0xff,
                    2 => tape::pick(&[0x40, 0x80, 0xc0, 0x01]),
                    _ => tape::below(256) as u8,
                };
                b[p] = v;
                ev(Ev::FlipByte, p as u64, u64::from(v));
                first = first.min(p);
                last = last.max(p + 1);
            }
            2 => {
                let n = tape::urange(1, 64.min(len - p));
                b[p..p + n].fill(0);
                ev(Ev::ZeroRange, p as u64, n as u64);
                first = first.min(p);
                last = last.max(p + n);
            }
            3 => {
                let n = tape::urange(1, 600.min(len - p));
                b.drain(p..p + n);
                ev(Ev::LoseRange, p as u64, n as u64);
                first = first.min(p);
                last = last.max(p) + 0;
                if last > p {
                    last = last.saturating_sub(n).max(p);
                }
            }
            4 => {
                let n = tape::urange(1, 600.min(len - p));
                let c = b[p..p + n].to_vec();
                let tail = b.split_off(p + n);
                b.extend_from_slice(&c);
                b.extend_from_slice(&tail);
                ev(Ev::DupRange, p as u64, n as u64);
                first = first.min(p + n);
                last = last.max(p + n) + n;
            }
            _ => {
                let n = tape::urange(1, 300);
                if p + 2 * n <= len {
                    for i in 0..n {
                        b.swap(p + i, p + n + i);
                    }
                    ev(Ev::SwapRange, p as u64, n as u64);
                    first = first.min(p);
                    last = last.max(p + 2 * n);
                }
            }
        }
    }
    (first, last)
}

fn damage_fields(st: &Stream, b: &mut [u8]) -> usize {
    let s = tape::pick(&st.segs);
    let p = s.at + 13;
    let field: &[(usize, usize)] = match s.kind {
        ODS if s.len >= 11 => &[(p + 3, 1), (p + 4, 3), (p + 7, 2), (p + 9, 2), (s.at + 11, 2), (s.at + 10, 1), (p, 3)],
        ODS => &[(p + 3, 1), (s.at + 11, 2), (s.at + 10, 1)],
        PDS => &[(s.at + 11, 2), (s.at + 10, 1), (p, 2)],
        _ => &[(s.at + 11, 2), (s.at + 10, 1), (s.at, 2), (s.at + 2, 4)],
    };
    let (at, n) = tape::pick(field);
    let n = n.min(b.len() - at);
    let mut v: u64 = 0;
    for i in 0..n {
        v = v << 8 | u64::from(b[at + i]);
    }
    let max = (1u64 << (8 * n)) - 1;
    let new = match tape::below(7) {
        0 => v.wrapping_add(tape::range(1, 6)) & max,
        1 => v.wrapping_sub(tape::range(1, 14)) & max,
        2 => tape::range(0, 14).min(max),
        3 => max,
        4 => tape::pick(&[0x14, 0x15, 0x16, 0x17, 0x80, 0x40, 0xc0, 0x00]),
        5 => v ^ 1 << tape::below(8 * n as u64),
        _ => tape::range(0, max),
    };
    for i in 0..n {
        b[at + i] = (new >> (8 * (n - 1 - i))) as u8;
    }
    ev(Ev::FieldDamage, at as u64, new);
    if new == v {
        usize::MAX
    } else {
        at
    }
}
fn damage_segments(st: &Stream) -> (Vec<u8>, usize) {
    let mut order: Vec<usize> = (0..st.segs.len()).collect();
    for _ in 0..tape::urange(1, 3) {
        if order.len() < 2 {
            break;
        }
        let i = tape::urange(0, order.len() - 2);
        match tape::below(3) {
            0 => {
                order.remove(i);
                ev(Ev::LoseSeg, i as u64, 0);
            }
            1 => {
                let c = order[i];
                order.insert(i, c);
                ev(Ev::DupSeg, i as u64, 0);
            }
            _ => {
                order.swap(i, i + 1);
                ev(Ev::SwapSeg, i as u64, 0);
            }
        }
    }
    let mut b = Vec::new();
    for i in order {
        let s = st.segs[i];
        b.extend_from_slice(&st.bytes[s.at..s.at + 13 + s.len]);
    }
    let first = b.iter().zip(&st.bytes).position(|(a, c)| a != c).unwrap_or(b.len().min(st.bytes.len()));
    (b, first)
}

/// Everything a yielded image promises, on arbitrary data.
pub fn robust_image(g: &RleEncodedImage, stream_len: usize) {
    let n = u64::from(g.width()) * u64::from(g.height());
    let encodable = stream_len as u64 / 2 * 16384;
    if n > encodable {
        fail!("image-unbacked", "a {}x{} image came out of {stream_len} bytes of stream", g.width(), g.height());
    }
    const LIMIT: u64 = 3_000_000;
    let got = lib(|| g.iter().take(LIMIT as usize + 1).count()) as u64;
    if got != n.min(LIMIT + 1) {
        fail!("pixel-count", "a {}x{} image iterates over {got} pixels", g.width(), g.height());
    }
    let len = lib(|| g.iter().len()) as u64;
    if len != n {
        fail!("iterator-length", "a {}x{} image claims {len} pixels", g.width(), g.height());
    }
    if n <= 400_000 {
        let im = lib(|| RleToImage::new(g, |p: LumaA<u8>| p).to_image());
        if u64::from(im.width()) * u64::from(im.height()) != n {
            fail!("render-size", "a {}x{} image renders as {}x{}", g.width(), g.height(), im.width(), im.height());
        }
        let o = lib(|| RleToImage::new(g, |p: LumaA<u8>| Luma([p.0[0]])).image(&ToOcrImageOpt::default()));
        if (o.width(), o.height()) != (g.width() + 10, g.height() + 10) {
            fail!("render-size", "ocr rendering of {}x{} is {}x{}", g.width(), g.height(), o.width(), o.height());
        }
    }
    probe(Ev::PDamagedImage);
}

pub fn c06() {
    let mut sh = Shape::draw();
    sh.huge = tape::pick(&[0, 0, 0, 1]);
    sh.skip_max = sh.skip_max.min(400);
    let st = stream(tape::urange(1, 6), &sh);
    let image = tape::chance(4, 5);
    let mut b;
    let mut first;
    match tape::weighted(&[4, 5, 2]) {
        0 => {
            b = st.bytes.clone();
            let n = tape::pick(&[1, 1, 2, 5]);
            let st2 = &st;
            let f = damage_bytes(&mut b, n, &mut |_| interesting(st2));
            first = f.0;
        }
        1 => {
            b = st.bytes.clone();
            first = usize::MAX;
            for _ in 0..tape::pick(&[1, 1, 2, 3]) {
                first = first.min(damage_fields(&st, &mut b));
            }
        }
        _ => {
            let r = damage_segments(&st);
            b = r.0;
            first = r.1;
        }
    }
    if first == usize::MAX {
        first = b.len();
    }
    // the first byte that really differs
    let diff = b.iter().zip(&st.bytes).position(|(a, c)| a != c).unwrap_or(b.len().min(st.bytes.len()));
    first = first.min(diff).max(0);
    let intact = st.ends.iter().filter(|e| **e <= first).count();
    note!("  damage from byte {first}, {intact} pairs intact, {} bytes", b.len());
    let len = b.len();
    let dst = Arc::new(b);
    let via = pick_via();
    let plan = Plan::legal();
    let (r, _) = make_arc(via, dst, plan);
    let base = crate::sys::heap_now();
    crate::sys::heap_cap(base + (24 << 20) + 8 * len);
    let mut it = items(r, image);
    let bound = len / 13 + 4;
    let mut count = 0;
    loop {
        let g = it.step();
        if count < intact {
            expect_pair("before the damage", &st, count, image, true, &g);
            probe(Ev::PPrefixKept);
        }
        count += 1;
        if count > bound {
            fail!("endless", "{count} items out of {len} bytes and still no end");
        }
        match g {
            Got::End => break,
            Got::Image(_, im) => {
                crate::sys::heap_cap(usize::MAX);
                robust_image(&im, len);
                compared(1);
                drop(im);
                crate::sys::heap_cap(base + (24 << 20) + 8 * len);
            }
            Got::Err(..) | Got::Missing => {
                probe(Ev::PRefused);
                compared(1);
            }
            Got::Span(_) => compared(1),
        }
    }
    expect_end("after the end", &it.step());
}
fn make_arc(via: Via, a: Arc<Vec<u8>>, plan: Plan) -> (Box<dyn BufSeek>, &'static mut Seen) {
    make(via, Vec::clone(&a), plan)
}

pub fn c07() {
    let mut sh = Shape::draw();
    sh.huge = 0;
    sh.skip_max = sh.skip_max.min(400);
    let mut st = stream(tape::urange(1, 5), &sh);
    let image = tape::chance(2, 3);
    // what becomes readable later on
    let mut later = st.clone();
    for _ in 0..tape::urange(1, 3) {
        put_pair(&mut later, &sh, None);
    }
    let mut plan = Plan::legal();
    let mut limit = st.bytes.len();
    let mut framing: Option<usize> = None;
    let mut all = later.bytes.clone();
    match tape::weighted(&[3, 3, 3, 2]) {
        0 => {} // plain end, then growth
        1 => limit = interesting(&st).min(limit), // end at a cut, then growth
        2 => {
            let h = hard_plan(&st);
            plan = h;
        }
        _ => {
            // broken framing: magic or type code of one header
            let s = tape::pick(&st.segs);
            let (p, v) = if tape::chance(1, 2) {
                (s.at + tape::urange(0, 1), 0u8)
            } else {
                (s.at + 10, tape::pick(&[0x00, 0x13, 0x18, 0x81, 0xff]))
            };
            all[p] = v;
            ev(Ev::FieldDamage, p as u64, u64::from(v));
            match tape::below(8) {
                // no trace of the signature, or of anything from here on
                0 => all[s.at..s.at + 2].fill(0),
                1 => all[s.at..s.at + 13].fill(0),
                2 => all[s.at..].fill(0),
                3 => all[s.at..].fill(0xff),
                4 => all[s.at..s.at + 2].copy_from_slice(tape::pick(&[b"GP", b"pg", b"PP", b"PK", b"\x1a\x45", b"\r\n"])),
                _ => {}
            }
            framing = Some(s.at);
        }
    }
    st.bytes = all.clone();
    if plan.fail_times == 0 && tape::chance(1, 8) {
        c07_file(&later, &all, limit, st.pairs.len(), framing, image);
        return;
    }
    let use_buffer = tape::chance(1, 2);
    let (r, seen) = SimReader::new(all, plan);
    seen.limit = limit as u64;
    if limit < later.ends[st.pairs.len() - 1] {
        ev(Ev::Cut, limit as u64, 0);
    }
    let cap = pick_cap();
    note!("  limit {limit} {plan:?} buffered={use_buffer} framing={framing:?} image={image}");
    let mut it: Box<dyn Items> = if use_buffer {
        items(BufReader::with_capacity(cap, r), image)
    } else {
        items(r, image)
    };
    let bound = later.bytes.len() / 13 + 8;
    let mut n = 0;
    let mut ended_by_error = false;
    loop {
        let before = seen.hard_errors;
        let g = it.step();
        n += 1;
        if n > bound {
            fail!("endless", "{n} items without an end ({plan:?})");
        }
        let struck = seen.hard_errors > before;
        if let Some(at) = framing {
            // exactly the pairs before the broken header, then the error, then the end
            let whole = st.ends.iter().filter(|e| **e <= at).count();
            if n <= whole {
                expect_pair("before the broken segment header", &later, n - 1, image, false, &g);
            } else if !matches!(g, Got::Err(..)) {
                fail!("framing-hidden", "the broken segment header at {at} was answered with {}", name(&g));
            }
        }
        match &g {
            Got::End => break,
            Got::Err(s, e) => {
                let lost = struck || framing.is_some() || matches!(e, PgsError::SegmentPGMissing | PgsError::SegmentInvalidTypeCode { .. });
                if lost {
                    ended_by_error = true;
                    // bytes may have arrived and the reader may have recovered meanwhile
                    if tape::chance(1, 2) {
                        seen.limit = later.bytes.len() as u64;
                        ev(Ev::Grow, seen.limit, 0);
                    }
                    let g2 = it.step();
                    if !matches!(g2, Got::End) {
                        fail!("resumed-after-error", "after the error {s} the iteration went on with {}", name(&g2));
                    }
                    compared(1);
                    break;
                }
            }
            Got::Missing => {}
            _ => {
                if struck {
                    fail!("hidden-failure", "a read failure was answered with {}", name(&g));
                }
                if n <= st.pairs.len() && framing.is_none() {
                    expect_pair("before the end", &later, n - 1, image, false, &g);
                }
            }
        }
    }
    let _ = ended_by_error;
    probe(Ev::PEndReached);
    for k in 0..tape::urange(2, 6) {
        if tape::chance(2, 3) {
            seen.limit = later.bytes.len() as u64;
            ev(Ev::Grow, seen.limit, 1);
        }
        let g = it.step();
        if !matches!(g, Got::End) {
            fail!("unfused", "after the end was reported, call {k} yields {}", name(&g));
        }
        compared(1);
    }
}

/// A file opened by path, that another process appends to after the end was reported.
fn c07_file(later: &Stream, all: &[u8], limit: usize, pairs: usize, framing: Option<usize>, image: bool) {
    use std::io::Write as _;
    std::fs::write("s/in.sup", &all[..limit]).expect("input");
    legal_fs();
    note!("  file of {limit} bytes, later {} image={image}", all.len());
    let mut it = open_file(image).unwrap_or_else(|e| fail!("open-failed", "from_file failed on a healthy disk: {e:?}"));
    let whole = later.ends.iter().take(pairs).filter(|e| **e <= limit.min(framing.unwrap_or(usize::MAX))).count();
    for i in 0..whole {
        expect_pair("file, before the end", later, i, image, false, &it.step());
    }
    let mut n = whole;
    loop {
        let g = it.step();
        n += 1;
        match g {
            Got::End => break,
            // an error at an unknown place ends the iteration
            _ if class_err(&g) && n == whole + 1 => {}
            _ if framing.is_some() || n > whole + 1 => fail!("endless", "file: after {whole} subtitles and an error came {}", name(&g)),
            _ => fail!("invented-subtitle", "file: {whole} subtitles are complete, but then came {}", name(&g)),
        }
    }
    probe(Ev::PEndReached);
    for k in 0..tape::urange(2, 5) {
        if k == 0 || tape::chance(1, 2) {
            fs().active = false;
            let mut f = std::fs::OpenOptions::new().append(true).open("s/in.sup").expect("input");
            f.write_all(if k == 0 { &all[limit..] } else { all }).expect("input");
            drop(f);
            fs().active = true;
            ev(Ev::Grow, limit as u64, k as u64);
        }
        let g = it.step();
        if !matches!(g, Got::End) {
            fail!("unfused", "file: after the end was reported, call {k} yields {}", name(&g));
        }
        compared(1);
    }
    fs().active = false;
}
