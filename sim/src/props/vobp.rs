//! C08–C12: VobSub decoding under packetisation, delivery, loss, cuts and damage.

use super::pgsp::{cb, cmp_raw, damage_bytes, legal_fs};
use crate::sys::fs;
use crate::tape;
use crate::vob::{differs, junk, stream, Pack, Shape, Unit, Vob};
use crate::world::{compared, ev, lib, probe, Ev};
use image::{Luma, LumaA, Rgb, Rgba};
use subtile::image::{ImageArea as _, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::time::TimeSpan;
use subtile::vobsub::{conv_to_rgba, palette_rgb_to_luminance, Palette, Sub, VobSubError, VobSubIndexedImage, VobSubOcrImage, VobSubToImage};

type Item = Option<Result<(TimeSpan, VobSubIndexedImage), VobSubError>>;

/// Stores the bytes and opens them through the simulated system.
pub fn open_bytes(bytes: &[u8]) -> Sub {
    std::fs::write("s/in.sub", bytes).expect("input");
    legal_fs();
    let r = lib(|| Sub::open("s/in.sub"));
    fs().active = false;
    match r {
        Ok(s) => s,
        Err(e) => fail!("open-failed", "Sub::open failed on a healthy disk: {e:?}"),
    }
}
pub fn show(e: &VobSubError) -> String {
    let mut s = lib(|| format!("{e:?}"));
    let mut src: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = src {
        s.push_str(" / ");
        s.push_str(&lib(|| x.to_string()));
        src = x.source();
    }
    s
}
pub fn step<I: Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>>>(it: &mut I) -> Item {
    let r = lib(|| it.next());
    match &r {
        None => ev(Ev::ItemEnd, 0, 0),
        Some(Ok((t, _))) => ev(Ev::Item, t.start.msecs() as u64, t.end.msecs() as u64),
        Some(Err(_)) => ev(Ev::ItemErr, 0, 0),
    }
    r
}
pub fn name(g: &Item) -> String {
    match g {
        None => "the end".into(),
        Some(Ok((t, i))) => format!("{}..{} ms with a {}x{} image", t.start.msecs(), t.end.msecs(), i.width(), i.height()),
        Some(Err(e)) => format!("error {}", show(e)),
    }
}
/// The item must be exactly this subtitle.
pub fn expect_sub(what: &str, i: usize, u: &Unit, g: &Item) {
    match g {
        Some(Ok((t, im))) => {
            if let Some((class, d)) = differs(u, t, im) {
                crate::world::violate(format_args!("{class}"), format_args!("{what}: subtitle {i}: {d}"));
            }
            compared(1);
            probe(Ev::PImageOk);
        }
        None => fail!("lost-subtitle", "{what}: subtitle {i} is missing, iteration ended"),
        Some(Err(e)) => fail!("spurious-error", "{what}: subtitle {i} should decode, got error {}", show(e)),
    }
}
fn expect_end(what: &str, g: &Item) {
    if g.is_some() {
        fail!("not-ended", "{what}: expected the end, got {}", name(g));
    }
}
fn count() -> usize {
    match tape::weighted(&[6, 2, 1]) {
        0 => tape::urange(1, 3),
        1 => tape::urange(1, 9),
        _ => 0,
    }
}

pub fn c08() {
    if tape::chance(1, 4000) {
        return super::memp::vob_long(false);
    }
    let sh = Shape::draw();
    let v = stream(count(), &sh);
    let sub = open_bytes(&v.bytes);
    // the type parameter names a decoder but must not matter
    for round in 0..tape::pick(&[1, 1, 2]) {
        if tape::chance(1, 3) {
            let mut it = lib(|| sub.subtitles::<TimeSpan>());
            walk(&v, &mut it, round);
        } else {
            let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
            walk(&v, &mut it, round);
        }
    }
}
fn walk<I: Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>>>(v: &Vob, it: &mut I, round: usize) {
    let what = if round == 0 { "first iteration" } else { "second iteration" };
    for (i, u) in v.subs.iter().enumerate() {
        let g = step(it);
        expect_sub(what, i, u, &g);
    }
    for _ in 0..tape::urange(1, 3) {
        expect_end(what, &step(it));
    }
    probe(Ev::PEndReached);
}

fn mix_luma(c: Luma<u8>, a: u8) -> Luma<u8> {
    cb(Luma([c.0[0] ^ (a << 3)]))
}
fn mix_la(c: u16, a: u8) -> LumaA<u8> {
    cb(LumaA([(c >> 3) as u8, a]))
}
fn mix_rgb(c: Rgb<u8>, a: u8) -> Rgb<u8> {
    cb(Rgb([c.0[1], a, c.0[0]]))
}
/// Renderings of one decoded image against the model.
pub fn render(i: usize, u: &Unit, im: &VobSubIndexedImage) {
    let mut b = tape::bulk();
    let palette: Palette = std::array::from_fn(|_| {
        if b.chance(1, 4) {
            Rgb([b.below(3) as u8, 0, b.below(5) as u8])
        } else {
            Rgb([b.byte(), b.byte(), b.byte()])
        }
    });
    let luma: [Luma<u8>; 16] = std::array::from_fn(|_| Luma([if b.chance(1, 3) { 0 } else { b.byte() }]));
    let dim = (u.w as u32, u.h as u32);
    let col = |p: &u8| (u.pal[*p as usize] as usize, u.alpha[*p as usize]);
    match tape::below(5) {
        0 => {
            let r = lib(|| VobSubToImage::new(im, &palette, conv_to_rgba).to_image());
            let want: Vec<u8> = u
                .px
                .iter()
                .flat_map(|p| {
                    let (c, a) = col(p);
                    [palette[c].0[0], palette[c].0[1], palette[c].0[2], a]
                })
                .collect();
            let _: &image::ImageBuffer<Rgba<u8>, Vec<u8>> = &r;
            cmp_raw("rgba rendering", i, (r.width(), r.height()), dim, r.as_raw(), &want);
        }
        1 => {
            let r = lib(|| VobSubToImage::new(im, &luma, mix_luma).to_image());
            let want: Vec<u8> = u
                .px
                .iter()
                .map(|p| {
                    let (c, a) = col(p);
                    luma[c].0[0] ^ (a << 3)
                })
                .collect();
            cmp_raw("luma rendering", i, (r.width(), r.height()), dim, r.as_raw(), &want);
        }
        2 => {
            let wide: [u16; 16] = std::array::from_fn(|_| b.below(2048) as u16);
            let r = lib(|| VobSubToImage::new(im, &wide, mix_la).to_image());
            let want: Vec<u8> = u
                .px
                .iter()
                .flat_map(|p| {
                    let (c, a) = col(p);
                    [(wide[c] >> 3) as u8, a]
                })
                .collect();
            cmp_raw("luma-alpha rendering", i, (r.width(), r.height()), dim, r.as_raw(), &want);
        }
        3 => {
            let r = lib(|| VobSubToImage::new(im, &palette, mix_rgb).to_image());
            let want: Vec<u8> = u
                .px
                .iter()
                .flat_map(|p| {
                    let (c, a) = col(p);
                    [palette[c].0[1], a, palette[c].0[0]]
                })
                .collect();
            cmp_raw("rgb rendering", i, (r.width(), r.height()), dim, r.as_raw(), &want);
        }
        _ => {
            let from_rgb = tape::chance(1, 2);
            let pl = if from_rgb { lib(|| palette_rgb_to_luminance(&palette)) } else { luma };
            if from_rgb {
                for (k, (g, c)) in pl.iter().zip(&palette).enumerate() {
                    // black is black; anything else is within a grey level of the usual weights
                    let l = (2126 * u32::from(c.0[0]) + 7152 * u32::from(c.0[1]) + 722 * u32::from(c.0[2])) / 10_000;
                    if u32::from(g.0[0]).abs_diff(l) > 1 || (l >= 1) != (g.0[0] >= 1) {
                        fail!("luminance", "palette entry {k} {c:?} has luminance {} instead of {l}", g.0[0]);
                    }
                }
            }
            let border = if u.w.max(u.h) < 64 && tape::chance(1, 40) { tape::range(250, 300) as u32 } else { tape::pick(&[0u32, 1, 5, 20]) };
            let (fg, bg) = (tape::pick(&[0u8, 9]), tape::pick(&[255u8, 0, 100]));
            let (border, fg, bg, opt) = if tape::chance(1, 4) {
                (5u32, 0u8, 255u8, ToOcrImageOpt::default())
            } else {
                (border, fg, bg, ToOcrImageOpt { border, text_color: Luma([fg]), background_color: Luma([bg]) })
            };
            let r = lib(|| VobSubOcrImage::new(im, &pl).image(&opt));
            let (ow, oh) = (u.w + 2 * border as usize, u.h + 2 * border as usize);
            let mut want = vec![bg; ow * oh];
            for y in 0..u.h {
                for x in 0..u.w {
                    let (c, a) = col(&u.px[y * u.w + x]);
                    if a > 0 && pl[c].0[0] > 0 {
                        want[(y + border as usize) * ow + x + border as usize] = fg;
                    }
                }
            }
            cmp_raw("ocr rendering", i, (r.width(), r.height()), (ow as u32, oh as u32), r.as_raw(), &want);
        }
    }
}

pub fn c09() {
    let mut sh = Shape::draw();
    sh.big = tape::pick(&[0, 0, 0, 3]);
    sh.noncanon = tape::pick(&[0, 8, 16]);
    let v = stream(tape::urange(1, 3), &sh);
    let sub = open_bytes(&v.bytes);
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    for (i, u) in v.subs.iter().enumerate() {
        let g = step(&mut it);
        expect_sub("bitmap", i, u, &g);
        if let Some(Ok((_, im))) = &g {
            for _ in 0..tape::urange(1, 2) {
                render(i, u, im);
            }
            // an image rebuilt from its parts is the same image
            if tape::chance(1, 5) {
                let c = lib(|| VobSubIndexedImage::new(im.area(), *im.palette(), *im.alpha(), im.raw_image().to_vec()));
                if !lib(|| c == *im) {
                    fail!("image-rebuild", "subtitle {i}: an image rebuilt from its parts differs");
                }
            }
        }
    }
    expect_end("bitmap", &step(&mut it));
}

pub fn c10() {
    let mut sh = Shape::draw().loss_safe();
    sh.split = tape::pick(&[2, 4, 3, 1, 0]);
    let n = tape::urange(2, 7);
    let v = stream(n, &sh);
    // which subtitles lose packs
    let mut lose = vec![false; n];
    for i in 0..n {
        lose[i] = !(i > 0 && lose[i - 1]) && tape::chance(1, 3);
    }
    if !lose.iter().any(|l| *l) {
        lose[tape::urange(0, n - 1)] = true;
    }
    // 0: nothing lost, 1: partly, 2: wholly
    let mut state = vec![0u8; n];
    let mut out = Vec::new();
    let mut at = 0;
    for i in 0..n {
        let packs: Vec<Pack> = v.packs.iter().filter(|p| p.sub == Some(i)).copied().collect();
        if !lose[i] {
            continue;
        }
        let k = packs.len();
        let drop: Vec<bool> = match tape::below(5) {
            0 => (0..k).map(|j| j + 1 == k).collect(),
            1 => (0..k).map(|j| j == 0).collect(),
            2 => {
                let j0 = tape::urange(0, k - 1);
                (0..k).map(|j| j == j0).collect()
            }
            3 => {
                let a = tape::urange(0, k - 1);
                let b = tape::urange(a, k - 1);
                (0..k).map(|j| j >= a && j <= b).collect()
            }
            _ => {
                let j0 = tape::urange(0, k - 1);
                (0..k).map(|j| j == j0 || tape::chance(1, 2)).collect()
            }
        };
        let lost = drop.iter().filter(|d| **d).count();
        state[i] = if lost == k { 2 } else { 1 };
        for (p, d) in packs.iter().zip(&drop) {
            if *d {
                ev(Ev::LosePack, i as u64, p.at as u64);
                out.extend_from_slice(&v.bytes[at..p.at]);
                at = p.end;
            }
        }
        note!("  subtitle {i} loses {lost} of {k} packs: {drop:?}");
    }
    out.extend_from_slice(&v.bytes[at..]);
    let sub = open_bytes(&out);
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    let bound = out.len() / 10 + 8;
    let mut items = 0;
    // errors seen since the last success
    let mut errs = 0usize;
    let mut next = 0usize;
    loop {
        let g = step(&mut it);
        items += 1;
        if items > bound {
            fail!("endless", "{items} items out of {} bytes", out.len());
        }
        match &g {
            Some(Err(_)) => {
                errs += 1;
                continue;
            }
            Some(Ok(_)) | None => {
                // skip the subtitles that lost packs
                let mut partial = false;
                while next < n && state[next] != 0 {
                    partial |= state[next] == 1;
                    next += 1;
                }
                let struck = next > 0 && state[next - 1] != 0;
                if next < n {
                    if g.is_none() {
                        fail!("lost-subtitle", "subtitle {next} kept all its packs but iteration ended ({errs} errors before)");
                    }
                    if !partial && !struck && errs > 0 {
                        fail!("spurious-error", "{errs} errors before subtitle {next}, no pack was lost there");
                    }
                    expect_sub("after a lost pack", next, &v.subs[next], &g);
                    if struck {
                        probe(Ev::PRecovered);
                        probe(Ev::PBackpressure);
                    }
                    if partial && errs == 0 {
                        fail!("silent-loss", "subtitle {} lost some of its packs and no error was reported", next - 1);
                    }
                    if partial {
                        probe(Ev::PErrReported);
                    }
                    next += 1;
                } else {
                    if let Some(Ok(_)) = &g {
                        fail!("invented-subtitle", "all {n} subtitles are accounted for but another came: {}", name(&g));
                    }
                    if partial && errs == 0 {
                        fail!("silent-loss", "subtitle {} lost some of its packs and no error was reported before the end", n - 1);
                    }
                    if !struck && errs > 0 {
                        fail!("spurious-error", "{errs} errors before the end, no pack was lost there");
                    }
                    probe(Ev::PEndReached);
                    break;
                }
                errs = 0;
            }
        }
    }
    for _ in 0..tape::urange(1, 3) {
        expect_end("lost packs", &step(&mut it));
    }
}

pub fn c11() {
    let sh = Shape::draw();
    let v = stream(tape::urange(1, 5), &sh);
    let len = v.bytes.len();
    let cut = match tape::weighted(&[4, 4, 2]) {
        0 => {
            let p = tape::pick(&v.packs);
            (p.at + tape::urange(0, 40)).min(len)
        }
        1 => {
            let p = tape::pick(&v.packs);
            (p.data_at + tape::urange(0, p.data_len)).min(len)
        }
        _ => tape::urange(0, len),
    };
    ev(Ev::Cut, cut as u64, len as u64);
    let kept = v.ends.iter().filter(|e| **e <= cut).count();
    let payload = v.packs.iter().any(|p| p.sub == Some(kept) && p.data_len > 0 && p.data_at < cut);
    note!("  cut at {cut} of {len}: {kept} subtitles complete, payload of the next present: {payload}");
    if payload {
        probe(Ev::PCutPayload);
    }
    let sub = open_bytes(&v.bytes[..cut]);
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    for i in 0..kept {
        let g = step(&mut it);
        expect_sub("before the cut", i, &v.subs[i], &g);
        probe(Ev::PPrefixKept);
    }
    let g = step(&mut it);
    match &g {
        Some(Ok(_)) => fail!("invented-subtitle", "subtitle {kept} is cut off at byte {cut} but was yielded: {}", name(&g)),
        Some(Err(_)) => {
            probe(Ev::PErrReported);
            compared(1);
        }
        None => {
            if payload {
                fail!("silent-cut", "the stream is cut inside subtitle {kept} (byte {cut}) but the end looks clean");
            }
        }
    }
    for _ in 0..tape::urange(2, 4) {
        expect_end("after the cut", &step(&mut it));
    }
}

/// Field damage that keeps the framing but breaks the meaning.
fn damage_unit_field(v: &Vob, b: &mut [u8]) -> (usize, usize) {
    let firsts: Vec<Pack> = v.packs.iter().filter(|p| p.first).copied().collect();
    let p = tape::pick(&firsts);
    let u = &v.subs[p.sub.expect("first packs carry a subtitle")];
    let ctrl = usize::from(u.spu[2]) << 8 | usize::from(u.spu[3]);
    // where in the unit
    let (off, n) = match tape::weighted(&[2, 2, 3, 4, 3]) {
        0 => (0, 2),
        1 => (2, 2),
        2 => (ctrl + tape::pick(&[0usize, 2]), 2),
        3 => (ctrl + tape::urange(4, (u.spu.len() - ctrl).max(5) - 1), tape::pick(&[1usize, 2])),
        _ => (tape::urange(4, ctrl.max(5) - 1), 1),
    };
    // where in the file
    let mut left = off;
    for q in v.packs.iter().filter(|q| q.sub == p.sub) {
        if left < q.data_len {
            let at = q.data_at + left;
            let n = n.min(q.data_len - left);
            let mut x: u64 = 0;
            for k in 0..n {
                x = x << 8 | u64::from(b[at + k]);
            }
            let max = (1u64 << (8 * n)) - 1;
            let new = match tape::below(6) {
                0 => x.wrapping_add(tape::range(1, 5)) & max,
                1 => x.wrapping_sub(tape::range(1, 5)) & max,
                2 => tape::range(0, 40).min(max),
                3 => max - tape::range(0, 3),
                4 => x ^ 1 << tape::below(8 * n as u64),
                _ => tape::range(0, max),
            };
            for k in 0..n {
                b[at + k] = (new >> (8 * (n - 1 - k))) as u8;
            }
            ev(Ev::FieldDamage, at as u64, new);
            return if new == x { (usize::MAX, 0) } else { (at, at + n) };
        }
        left -= q.data_len;
    }
    (usize::MAX, 0)
}
/// Damage of the framing: start codes, lengths, flags, timestamps, track numbers.
fn damage_framing(v: &Vob, b: &mut [u8]) -> (usize, usize) {
    let p = tape::pick(&v.packs);
    let n = (p.data_at - p.at).max(20).min(p.end - p.at);
    let at = match tape::below(3) {
        0 => p.at + tape::urange(0, n - 1),
        1 => p.data_at.saturating_sub(1).max(p.at), // track number
        _ => {
            // PES length, flags, header length
            let q = (p.at + 14..p.end.saturating_sub(9)).find(|q| b[*q..*q + 3] == [0, 0, 1]).unwrap_or(p.at);
            q + tape::urange(3, 8)
        }
    };
    let at = at.min(p.end - 1);
    let old = b[at];
    let new = match tape::below(4) {
        0 => old ^ 1 << tape::below(8),
        1 => tape::pick(&[0, 0xff, 0x80, 0x40]),
        2 => old.wrapping_add(tape::range(1, 3) as u8),
        _ => tape::below(256) as u8,
    };
    b[at] = new;
    ev(Ev::FieldDamage, at as u64, u64::from(new));
    if new == old {
        (usize::MAX, 0)
    } else {
        (at, at + 1)
    }
}
const MARGIN: usize = 2 * 65536 + 32;

pub fn c12() {
    let mut sh = Shape::draw().loss_safe();
    sh.lookalike = 0;
    // a far-off tail shows whether decoding recovers
    let far = tape::chance(1, 4);
    let n = tape::urange(1, 5);
    let mut v = stream(n, &sh);
    let near = v.clone();
    if far {
        let mut b = tape::bulk();
        let fill = MARGIN + tape::urange(0, 3000);
        let at = v.bytes.len();
        if tape::chance(1, 2) {
            v.bytes.resize(at + fill, tape::pick(&[0xffu8, 0, 0x55]));
        } else {
            junk(&mut v.bytes, &mut b, fill);
        }
        let id = v.packs.iter().find(|p| p.sub.is_some()).map_or(0x20, |p| v.bytes[p.data_at - 1]);
        for _ in 0..tape::urange(1, 2) {
            crate::vob::put_unit(&mut v, &sh, id);
        }
    }
    let mut bytes = v.bytes.clone();
    let (mut first, mut last) = (usize::MAX, 0usize);
    let k = tape::pick(&[1usize, 1, 1, 2, 4]);
    let mut shifted = 0i64;
    match tape::weighted(&[4, 3, 3]) {
        0 => {
            for _ in 0..k {
                let d = damage_unit_field(&near, &mut bytes);
                first = first.min(d.0);
                last = last.max(d.1);
            }
        }
        1 => {
            for _ in 0..k {
                let d = damage_framing(&near, &mut bytes);
                first = first.min(d.0);
                last = last.max(d.1);
            }
        }
        _ => {
            // anywhere in the near part; what follows moves as a block
            let tail = bytes.split_off(near.bytes.len());
            let before = bytes.len();
            let near2 = &near;
            let d = damage_bytes(&mut bytes, k, &mut |len| {
                if tape::chance(1, 2) {
                    let p = tape::pick(&near2.packs);
                    (p.at + tape::urange(0, p.end - p.at)).min(len)
                } else {
                    tape::urange(0, len)
                }
            });
            first = d.0;
            last = d.1;
            shifted = bytes.len() as i64 - before as i64;
            bytes.extend_from_slice(&tail);
        }
    }
    if first == usize::MAX {
        first = bytes.len();
    }
    let diff = bytes.iter().zip(&v.bytes).position(|(a, c)| a != c).unwrap_or(bytes.len().min(v.bytes.len()));
    first = first.min(diff);
    let intact = v.ends.iter().filter(|e| **e <= first).count();
    // subtitles that start far enough behind the damage
    let safe: Vec<usize> = (0..v.subs.len()).filter(|i| far && *i >= n && (v.begins[*i] as i64 + shifted) as usize > last + MARGIN - 32).collect();
    note!("  damage {first}..{last}, {intact} subtitles intact before, {safe:?} must recover, {} bytes", bytes.len());
    let sub = open_bytes(&bytes);
    let base = crate::sys::heap_now();
    crate::sys::heap_cap(base + (96 << 20));
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    let bound = bytes.len() / 10 + 8;
    let mut items = 0;
    let mut tail: Vec<(TimeSpan, VobSubIndexedImage)> = Vec::new();
    loop {
        let g = step(&mut it);
        if items < intact {
            expect_sub("before the damage", items, &v.subs[items], &g);
            probe(Ev::PPrefixKept);
        }
        items += 1;
        if items > bound {
            fail!("endless", "{items} items out of {} bytes and still no end", bytes.len());
        }
        match g {
            None => break,
            Some(Err(e)) => {
                let _ = show(&e);
                probe(Ev::PRefused);
                compared(1);
            }
            Some(Ok((t, im))) => {
                let (w, h) = (im.width() as usize, im.height() as usize);
                if im.raw_image().len() != w * h {
                    fail!("pixel-count", "a {w}x{h} image has {} pixels", im.raw_image().len());
                }
                if let Some(p) = im.raw_image().iter().position(|p| *p > 3) {
                    fail!("pixel-value", "pixel {p} of a {w}x{h} image is {}", im.raw_image()[p]);
                }
                if w * h <= 100_000 {
                    let pal: Palette = [Rgb([1, 2, 3]); 16];
                    let r = lib(|| VobSubToImage::new(&im, &pal, conv_to_rgba).to_image());
                    if (r.width() as usize, r.height() as usize) != (w, h) {
                        fail!("render-size", "a {w}x{h} image renders as {}x{}", r.width(), r.height());
                    }
                    probe(Ev::PDamagedImage);
                }
                compared(1);
                if tail.len() >= 4 {
                    tail.remove(0);
                }
                if w * h <= 4_000_000 {
                    tail.push((t, im));
                }
            }
        }
    }
    expect_end("after the end", &step(&mut it));
    if !safe.is_empty() {
        // nothing follows the tail, so it must be the last successes, in order
        let k = safe.len();
        if tail.len() < k {
            fail!("not-recovered", "only {} of the {k} subtitles far behind the damage came out", tail.len());
        }
        for (j, i) in safe.iter().enumerate() {
            let (t, im) = &tail[tail.len() - k + j];
            if let Some((_, d)) = differs(&v.subs[*i], t, im) {
                fail!("not-recovered", "subtitle {i}, far behind the damage, came out wrong or not at all: {d}");
            }
            probe(Ev::PRecovered);
            compared(1);
        }
    }
}
