//! C19: heap use and read-ahead while long streams are iterated.

use super::pgsp::{expect_end, expect_pair, items, items_of};
use super::vobp;
use crate::io::{Chunk, Plan, Repeat, SimReader};
use crate::pgs;
use crate::sys::{fs, heap_cap, heap_now, Fs};
use crate::tape;
use crate::vob;
use crate::world::{compared, lib, probe, Ev};
use std::fs::File;
use std::io::{BufReader, Write as _};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::VobSubIndexedImage;

/// The fixed allowance, and how many times the largest subtitle may be held.
const ALLOWANCE: usize = 128 << 10;
const MULTIPLE: usize = 8;

pub fn c19() {
    if tape::chance(1, 3) {
        vob_long(true);
    } else {
        pgs_long(true);
    }
}

/// A film's worth of subtitles and far more. `bounded`: with an eye on memory and read-ahead.
pub fn pgs_long(bounded: bool) {
    let mut sh = pgs::Shape::draw();
    let heavy = bounded && tape::chance(1, 3);
    if !bounded {
        sh.max_w = sh.max_w.min(12);
        sh.skip_max = sh.skip_max.min(40);
    }
    if !heavy {
        sh.huge = 0;
        sh.max_w = sh.max_w.min(40);
        sh.skip_max = sh.skip_max.min(300);
    }
    let st = pgs::stream(tape::urange(1, 6), &sh);
    let len = st.bytes.len();
    let from_file = bounded && tape::chance(1, 5);
    let total = if from_file { tape::pick(&[1usize << 20, 2 << 20]) } else { tape::pick(&[1usize << 20, 3 << 20, 400_000, 8 << 20]) };
    let mut times = (total / len).clamp(2, 40_000) as u64;
    if !bounded {
        // how many subtitles there are matters, not how many bytes
        probe(Ev::PManyItems);
        times = tape::pick(&[600u64, 5_000, 20_000, 70_000]) / st.pairs.len() as u64 + 1;
        times = times.min((48 << 20) / len as u64 + 1);
    }
    let image = tape::chance(2, 3);
    // no draws per delivery: these runs are long
    let mut plan = Plan::CALM;
    plan.chunk = match tape::below(4) {
        0 => Chunk::All,
        1 => Chunk::Fixed(tape::urange(1, 50)),
        2 => Chunk::Fixed(tape::urange(50, 5000)),
        _ => Chunk::Fixed(tape::urange(5000, 200_000)),
    };
    let cap = tape::pick(&[0usize, 16, 512, 8192, 1 << 17]);
    let largest = (0..st.pairs.len())
        .map(|i| st.ends[i] - st.begin_of(i) + st.pairs[i].img.as_ref().map_or(0, |m| m.ids.len()))
        .max()
        .unwrap_or(0);
    let bound = if bounded { ALLOWANCE + MULTIPLE * largest } else { usize::MAX / 4 };
    note!("  {times} times {len} bytes, images {image}, {plan:?}, buffer {cap}, largest subtitle {largest}, bound {bound}");
    if from_file {
        let f = std::fs::File::create("s/in.sup").expect("input");
        let mut f = std::io::BufWriter::with_capacity(1 << 18, f);
        for _ in 0..times {
            f.write_all(&st.bytes).expect("input");
        }
        f.flush().expect("input");
        drop(f);
    }
    let (r, seen) = SimReader::new(Repeat { blob: st.bytes.clone(), times }, plan);
    let whole = len as u64 * times;
    // how far the reader may be ahead of what was asked for
    let ahead = (cap.max(8192) + 2 * largest + (64 << 10)) as u64;
    let base;
    let mut it: Box<dyn super::pgsp::Items> = if from_file {
        drop(r);
        *fs() = Fs::new();
        fs().active = true;
        base = heap_now();
        heap_cap(base + bound);
        if image {
            items_of(lib(|| SupParser::<BufReader<File>, DecodeTimeImage>::from_file("s/in.sup")).unwrap_or_else(|e| fail!("open-failed", "from_file failed on a healthy disk: {e:?}")))
        } else {
            Box::new(super::pgsp::Times(lib(|| SupParser::<BufReader<File>, DecodeTimeOnly>::from_file("s/in.sup")).unwrap_or_else(|e| fail!("open-failed", "from_file failed on a healthy disk: {e:?}"))))
        }
    } else if cap == 0 {
        base = heap_now();
        heap_cap(base + bound);
        items(r, image)
    } else {
        let r = BufReader::with_capacity(cap, r);
        base = heap_now();
        heap_cap(base + bound);
        items(r, image)
    };
    let used = |done: u64, seen: &crate::io::Seen, what: &str| {
        if !bounded {
            return;
        }
        if from_file && fs().read_high > done + ahead {
            fail!("read-ahead", "{what}: {} of {whole} bytes of the file were read though only {done} were asked for", fs().read_high);
        }
        if seen.pos > done + ahead {
            fail!("read-ahead", "{what}: {} of {whole} bytes were consumed though only {done} were asked for", seen.pos);
        }
    };
    used(0, seen, "after construction");
    let n = st.pairs.len();
    let all = n as u64 * times;
    // a consumer that stops early must not have paid for the rest
    let stop = if tape::chance(1, 4) { tape::range(0, all) } else { all };
    for k in 0..stop {
        let i = (k % n as u64) as usize;
        let g = it.step();
        expect_pair("long stream", &st, i, image, k < 40, &g);
        drop(g);
        used((k / n as u64) * len as u64 + st.ends[i] as u64, seen, "while iterating");
        if k % 64 == 0 && heap_now() > base + bound {
            fail!("heap-growth", "after {k} subtitles {} bytes are held, the bound is {bound}", heap_now() - base);
        }
    }
    if stop == all {
        expect_end("long stream", &it.step());
        probe(Ev::PEndReached);
    }
    let held = heap_now().saturating_sub(base);
    if held > bound {
        fail!("heap-growth", "{held} bytes are still held after the iteration, the bound is {bound}");
    }
    lib(|| drop(it));
    fs().active = false;
    heap_cap(usize::MAX);
    compared(1);
}

pub fn vob_long(bounded: bool) {
    // With logging on, every skipped pack prints the rest of the file: too slow for long ones.
    log::set_max_level(log::LevelFilter::Off);
    let mut sh = vob::Shape::draw();
    sh.big = if tape::chance(1, 6) { 2 } else { 0 };
    sh.max_w = sh.max_w.min(300);
    if !bounded {
        sh.big = 0;
        sh.full = false;
        sh.wide = false;
        sh.max_w = 12;
    }
    let mut v = vob::stream(tape::urange(1, 5), &sh);
    if v.bytes.ends_with(&[0, 0, 1, 0xb9]) {
        v.bytes.truncate(v.bytes.len() - 4);
    }
    let len = v.bytes.len();
    let total = tape::pick(&[1usize << 20, 300_000, 3 << 20]);
    let mut times = (total / len).clamp(2, 40_000);
    if !bounded {
        probe(Ev::PManyItems);
        times = tape::pick(&[600usize, 5_000, 20_000, 70_000]) / v.subs.len() + 1;
        times = times.min((24 << 20) / len + 1);
    }
    let mut bytes = Vec::with_capacity(len * times);
    for _ in 0..times {
        bytes.extend_from_slice(&v.bytes);
    }
    let largest = v.subs.iter().map(|u| u.spu.len() + u.px.len()).max().unwrap_or(0);
    let bound = if bounded { ALLOWANCE + MULTIPLE * largest } else { usize::MAX / 4 };
    note!("  VobSub: {times} times {len} bytes, largest subtitle {largest}, bound {bound}");
    let sub = vobp::open_bytes(&bytes);
    drop(bytes);
    let base = heap_now();
    heap_cap(base + bound);
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    let n = v.subs.len();
    let all = n * times;
    for k in 0..all {
        let g = vobp::step(&mut it);
        vobp::expect_sub("long VobSub stream", k, &v.subs[k % n], &g);
        drop(g);
    }
    let g = vobp::step(&mut it);
    if g.is_some() {
        fail!("not-ended", "long VobSub stream: expected the end, got {}", vobp::name(&g));
    }
    let held = heap_now().saturating_sub(base);
    if held > bound {
        fail!("heap-growth", "{held} bytes are still held after the iteration, the bound is {bound}");
    }
    heap_cap(usize::MAX);
    probe(Ev::PEndReached);
}
