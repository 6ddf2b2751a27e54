//! The PGS model and an independent PGS encoder with every encoding freedom.

use crate::tape::{self, Bulk};
use crate::world::{probe, Ev};
use subtile::pgs::RleEncodedImage;
use subtile::time::TimeSpan;

#[derive(Clone)]
pub struct Img {
    pub w: u16,
    pub h: u16,
    /// palette ids, row-major
    pub ids: Vec<u8>,
    /// id -> (luminance, alpha)
    pub pal: Box<[Option<(u8, u8)>; 256]>,
}
impl Img {
    /// Expected (luminance, alpha) of the pixels.
    pub fn expected(&self) -> Vec<(u8, u8)> {
        self.ids.iter().map(|id| self.pal[*id as usize].unwrap_or((255, 0))).collect()
    }
}
#[derive(Clone)]
pub struct Pair {
    pub start: u32,
    pub end: u32,
    pub img: Option<Img>,
    /// the image can't be decoded (None: it can)
    pub broken: Option<Broken>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Broken {
    /// no palette before the object
    NoPalette,
    /// the runs describe fewer than width x height pixels
    FewPixels,
    /// the second fragment of the object never comes
    HalfObject,
}
impl Pair {
    pub fn span_ms(&self) -> (i64, i64) {
        (i64::from(self.start / 90), i64::from(self.end / 90))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Seg {
    pub at: usize,
    pub kind: u8,
    pub len: usize,
}
#[derive(Clone, Default)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub pairs: Vec<Pair>,
    /// end offset of each pair
    pub ends: Vec<usize>,
    pub segs: Vec<Seg>,
}
impl Stream {
    pub fn begin_of(&self, i: usize) -> usize {
        if i == 0 {
            0
        } else {
            self.ends[i - 1]
        }
    }
}

pub const PDS: u8 = 0x14;
pub const ODS: u8 = 0x15;
pub const PCS: u8 = 0x16;
pub const WDS: u8 = 0x17;
pub const END: u8 = 0x80;

/// How a workload is shaped (swarm: drawn once per run).
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_w: u64,
    pub max_h: u64,
    /// chance of 16 of a pair without bitmap
    pub no_image: u64,
    /// chance of 16 of a very large object or run
    pub huge: u64,
    /// of 50 huge ones, more than a million pixels
    pub hd: u64,
    /// largest skipped payload
    pub skip_max: u64,
    pub hide_pal: u64,
    pub frag: u64,
    pub noncanon: u64,
    /// chance of 16 of a pair with a bitmap that can't be decoded
    pub broken: u64,
}
impl Shape {
    pub fn draw() -> Self {
        Self {
            max_w: tape::pick(&[12, 3, 40, 130]),
            max_h: tape::pick(&[6, 2, 20]),
            no_image: tape::pick(&[0, 0, 3, 8]),
            huge: tape::pick(&[0, 0, 0, 0, 0, 1]),
            hd: 0,
            skip_max: tape::pick(&[30, 0, 300, 9000, 65535]),
            hide_pal: tape::pick(&[0, 4, 12]),
            frag: tape::pick(&[4, 0, 16]),
            noncanon: tape::pick(&[0, 4, 10]),
            broken: 0,
        }
    }
    pub fn small() -> Self {
        Self { max_w: 12, max_h: 6, no_image: 0, huge: 0, hd: 0, skip_max: 30, hide_pal: 0, frag: 4, noncanon: 3, broken: 0 }
    }
}

/// Appends one segment.
pub fn seg(out: &mut Stream, kind: u8, pts: u32, dts: u32, payload: &[u8]) {
    let at = out.bytes.len();
    out.bytes.extend_from_slice(b"PG");
    out.bytes.extend_from_slice(&pts.to_be_bytes());
    out.bytes.extend_from_slice(&dts.to_be_bytes());
    out.bytes.push(kind);
    out.bytes.extend_from_slice(&(payload.len() as u16).to_be_bytes());
    out.bytes.extend_from_slice(payload);
    out.segs.push(Seg { at, kind, len: payload.len() });
}

fn draw_pts() -> u32 {
    tape::edgy(0, u64::from(u32::MAX), &[90, 1 << 16, 1 << 31, (1 << 31) - 1, 90_000 * 3600, u64::from(u32::MAX) - 89]) as u32
}

fn skip_payload(b: &mut Bulk, max: u64) -> Vec<u8> {
    let n = match tape::weighted(&[4, 4, 1]) {
        0 => tape::range(0, max.min(20)),
        1 => tape::range(0, max.min(400)),
        _ => tape::range(0, max),
    } as usize;
    let mut v = b.bytes(n);
    // look-alikes of segment headers must not matter inside a payload
    if n >= 13 && tape::chance(1, 3) {
        let at = tape::urange(0, n - 13);
        v[at..at + 2].copy_from_slice(b"PG");
        v[at + 10] = tape::pick(&[END, ODS, PDS, 0]);
        v[at + 11] = 0;
        v[at + 12] = 0;
    }
    v
}

/// A palette of the given flavour: the PDS payload and the lookup table.
fn palette(b: &mut Bulk) -> (Vec<u8>, Box<[Option<(u8, u8)>; 256]>, Vec<u8>) {
    let n = match tape::weighted(&[5, 3, 1, 1, 1]) {
        0 => tape::urange(1, 8),
        1 => tape::urange(1, 60),
        2 => 256,
        3 => 255,
        _ => 0,
    };
    let mut ids: Vec<u8> = Vec::with_capacity(n);
    match tape::weighted(&[3, 2, 3, 2]) {
        0 => ids.extend((0..n).map(|i| i as u8)),
        1 => {
            let off = tape::urange(0, 256 - n);
            ids.extend((0..n).map(|i| (i + off) as u8));
        }
        k => {
            // any n different ids, sorted or not
            let mut all: Vec<u8> = (0..=255).collect();
            for i in 0..n {
                let j = i + b.below((256 - i) as u64) as usize;
                all.swap(i, j);
            }
            ids.extend_from_slice(&all[..n]);
            if k == 2 {
                ids.sort_unstable();
            }
            probe(Ev::PSparse);
        }
    }
    let mut pay = vec![b.byte(), b.byte()];
    let mut table = Box::new([None; 256]);
    for id in &ids {
        let (y, cr, cb, a) = (b.byte(), b.byte(), b.byte(), b.byte());
        pay.extend_from_slice(&[*id, y, cr, cb, a]);
        table[*id as usize] = Some((y, a));
    }
    (pay, table, ids)
}

/// One run.
pub fn put_run(out: &mut Vec<u8>, id: u8, n: usize, noncanon: bool, b: &mut Bulk) {
    debug_assert!(n >= 1 && n <= 16383);
    let long = n > 63 || (noncanon && b.chance(1, 2));
    if id != 0 {
        if n == 1 && !(noncanon && b.chance(1, 2)) {
            out.push(id);
        } else if long {
            out.extend_from_slice(&[0, 0xC0 | (n >> 8) as u8, n as u8, id]);
        } else {
            out.extend_from_slice(&[0, 0x80 | n as u8, id]);
        }
    } else if long {
        // colour 0 may also be named explicitly
        if noncanon && b.chance(1, 3) {
            out.extend_from_slice(&[0, 0xC0 | (n >> 8) as u8, n as u8, 0]);
        } else {
            out.extend_from_slice(&[0, 0x40 | (n >> 8) as u8, n as u8]);
        }
    } else if noncanon && b.chance(1, 3) {
        out.extend_from_slice(&[0, 0x80 | n as u8, 0]);
    } else {
        out.extend_from_slice(&[0, n as u8]);
    }
}
/// Run-length encodes the rows.
pub fn rle(ids: &[u8], w: usize, noncanon: bool, b: &mut Bulk) -> Vec<u8> {
    let mut out = Vec::new();
    for row in ids.chunks(w) {
        let mut x = 0;
        while x < row.len() {
            let id = row[x];
            let mut n = row[x..].iter().take_while(|p| **p == id).count();
            if n > 16383 {
                probe(Ev::PLongRun);
                n = 16383;
            }
            if noncanon && n > 1 && b.chance(1, 3) {
                n = 1 + b.below(n as u64) as usize;
            }
            put_run(&mut out, id, n, noncanon, b);
            x += n;
        }
        out.extend_from_slice(&[0, 0]);
    }
    out
}

fn draw_ids(w: usize, h: usize, ids: &[u8], b: &mut Bulk) -> Vec<u8> {
    // which ids occur: mostly listed ones, sometimes others
    let mut pool: Vec<u8> = Vec::new();
    for _ in 0..4 {
        if ids.is_empty() || tape::chance(1, 5) {
            pool.push(b.byte());
        } else {
            pool.push(ids[b.below(ids.len() as u64) as usize]);
        }
    }
    if tape::chance(1, 2) {
        pool.push(0);
    }
    let style = tape::below(4);
    let n = w * h;
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let run = match style {
            0 => 1 + b.below(8) as usize,
            1 => 1,
            2 => 1 + b.below(200) as usize,
            _ => [62, 63, 64, 65, 1, 2, 255, 256, 16383, 16384][b.below(10) as usize],
        };
        let id = pool[b.below(pool.len() as u64) as usize];
        for _ in 0..run.min(n - v.len()) {
            v.push(id);
        }
    }
    v
}

/// How many pixels complete runs describe.
fn described(d: &[u8]) -> usize {
    let (mut i, mut n) = (0, 0);
    while i < d.len() {
        if d[i] != 0 {
            (i, n) = (i + 1, n + 1);
            continue;
        }
        let Some(m) = d.get(i + 1) else { break };
        if *m == 0 {
            i += 2;
            continue;
        }
        let len = 2 + usize::from(m & 0x40 != 0) + usize::from(m & 0x80 != 0);
        if i + len > d.len() {
            break;
        }
        n += if m & 0x40 != 0 { usize::from(m & 0x3f) << 8 | usize::from(d[i + 2]) } else { usize::from(m & 0x3f) };
        i += len;
    }
    n
}

/// A palette, or a palette and an object in one or two fragments, that later ones replace.
fn superseded(out: &mut Stream, b: &mut Bulk, pts: u32) {
    let (pay, _, ids) = palette(b);
    seg(out, PDS, pts, 0, &pay);
    if tape::chance(1, 2) {
        return;
    }
    probe(Ev::PSuperseded);
    let (w, h) = (tape::urange(1, 12), tape::urange(1, 6));
    let px = draw_ids(w, h, &ids, b);
    let data = rle(&px, w, false, b);
    let cut = if tape::chance(1, 2) { tape::urange(0, data.len()) } else { data.len() };
    let whole = cut == data.len() && tape::chance(1, 2);
    let mut a = vec![0, b.byte(), b.byte(), if whole { 0xC0 } else { 0x80 }];
    a.extend_from_slice(&((data.len() + 4) as u32).to_be_bytes()[1..]);
    a.extend_from_slice(&[0, w as u8, 0, h as u8]);
    a.extend_from_slice(&data[..cut]);
    seg(out, ODS, pts, 0, &a);
    if !whole {
        let mut c = vec![0, b.byte(), b.byte(), 0x40];
        c.extend_from_slice(&data[cut..]);
        seg(out, ODS, pts, 0, &c);
    }
}
/// Draws one pair and appends it.
pub fn put_pair(out: &mut Stream, sh: &Shape, force_image: Option<bool>) {
    let mut b = tape::bulk();
    let start = draw_pts();
    let end = if tape::chance(1, 4) { draw_pts() } else { start.wrapping_add(tape::edgy(0, 90 * 100_000, &[89, 90, 91, 90_000]) as u32) };
    if start > 1 << 31 {
        probe(Ev::PFullPts);
    }
    let with_image = force_image.unwrap_or_else(|| !tape::chance(sh.no_image, 16));
    // segments other than END carry times of their own that must not matter
    let wild_times = tape::chance(1, 3);
    let p_of = |b: &mut Bulk, pts: u32| if wild_times { b.below(1 << 32) as u32 } else { pts };
    let n_pcs = tape::pick(&[1, 0, 2, 3]);
    if tape::chance(1, 300) {
        // a long row of segments that mean nothing to the decoder
        let n = tape::urange(20, 700);
        probe(Ev::PManySkipped);
        for _ in 0..n {
            let pay = { let k = b.below(12) as usize; b.bytes(k) };
            let p = p_of(&mut b, start);
            seg(out, if b.chance(1, 2) { PCS } else { WDS }, p, 0, &pay);
        }
    }
    for _ in 0..n_pcs {
        let pay = skip_payload(&mut b, sh.skip_max);
        let (p, d) = (p_of(&mut b, start), b.below(1 << 32) as u32);
        seg(out, PCS, p, d, &pay);
    }
    let n_wds = tape::pick(&[1, 0, 2]);
    for _ in 0..n_wds {
        let pay = skip_payload(&mut b, sh.skip_max);
        let (p, d) = (p_of(&mut b, start), b.below(1 << 32) as u32);
        seg(out, WDS, p, d, &pay);
    }
    let mut img = None;
    let mut broken = None;
    if with_image {
        if sh.broken > 0 && tape::chance(sh.broken, 16) {
            broken = Some(tape::pick(&[Broken::NoPalette, Broken::FewPixels, Broken::HalfObject]));
        }
        for _ in 0..if broken.is_none() && tape::chance(1, 12) { tape::urange(1, 2) } else { 0 } {
            superseded(out, &mut b, start);
        }
        let (pay, table, ids) = palette(&mut b);
        let p = p_of(&mut b, start);
        if broken != Some(Broken::NoPalette) {
            seg(out, PDS, p, 0, &pay);
        }
        let mut hd = false;
        let (w, h) = if tape::chance(sh.huge, 16) {
            hd = tape::chance(sh.hd, 50);
            match tape::below(3) {
                // whole screens and beyond: more than a million pixels
                _ if hd => tape::pick(&[(1920, 1080), (1024, 1024), (1920, 547), (4096, 2160), (65_535, 17), (600, 4000)]),
                0 => (tape::urange(16384, 40000), tape::urange(1, 2)),
                1 => (tape::urange(300, 400), tape::urange(250, 350)),
                _ => (tape::urange(1, 3), tape::urange(3000, 20000)),
            }
        } else {
            (tape::range(1, sh.max_w) as usize, tape::range(1, sh.max_h) as usize)
        };
        let px = if hd {
            // few runs a line, so that the object holds it
            let mut v = Vec::with_capacity(w * h);
            let ids: &[u8] = if ids.is_empty() { &[0, 7, 255] } else { &ids };
            for _ in 0..h {
                let k = b.below(w as u64 + 1) as usize;
                let (c, d) = (ids[b.below(ids.len() as u64) as usize], ids[b.below(ids.len() as u64) as usize]);
                v.resize(v.len() + k, c);
                v.resize(v.len() + w - k, d);
            }
            v
        } else {
            draw_ids(w, h, &ids, &mut b)
        };
        if px.iter().any(|id| table[*id as usize].is_none()) {
            probe(Ev::PMissingId);
        }
        let noncanon = tape::chance(sh.noncanon, 16);
        let mut data = rle(&px, w, noncanon, &mut b);
        // keep within two fragments
        if data.len() > 65524 + 65531 {
            data = rle(&px, w, false, &mut b);
        }
        let fits = data.len() <= 65524 + 65531;
        let (w, h, px, data) = if fits {
            (w, h, px, data)
        } else {
            // fall back to one flat colour of the same size
            let flat = vec![px[0]; w * h];
            let d = rle(&flat, w, false, &mut b);
            (w, h, flat, d)
        };
        let data = if broken == Some(Broken::FewPixels) && tape::chance(1, 2) {
            // the encoded data end early, perhaps inside a run
            let mut d = data;
            let keep = tape::urange(0, d.len() - 1);
            d.truncate(if tape::chance(1, 2) { keep } else { d.len() - tape::urange(1, d.len().min(8)) });
            while described(&d) >= w * h {
                d.pop();
            }
            if tape::chance(1, 3) && described(&d) < w * h {
                // a run without its length or colour
                let n = tape::range(0, 63) as u8;
                match tape::below(5) {
                    0 => d.push(0),
                    1 => d.extend_from_slice(&[0, 0x40 | n]),
                    2 => d.extend_from_slice(&[0, 0x80 | n]),
                    3 => d.extend_from_slice(&[0, 0xc0 | n]),
                    _ => d.extend_from_slice(&[0, 0xc0 | n, n]),
                }
                while described(&d) >= w * h {
                    d.pop();
                }
            }
            d
        } else if broken == Some(Broken::FewPixels) {
            let k = match tape::below(4) {
                0 => 0,
                1 => px.len() - 1,
                2 => (h - 1) * w,
                _ => tape::urange(0, px.len() - 1),
            };
            let mut d = if k == 0 { Vec::new() } else { rle(&px[..k], w, false, &mut b) };
            if tape::chance(1, 2) {
                d.extend_from_slice(&[0, 0]);
            }
            d
        } else {
            data
        };
        let olen = (data.len() + 4) as u32;
        let head = [b.byte(), b.byte(), b.byte()];
        let dim = [(w >> 8) as u8, w as u8, (h >> 8) as u8, h as u8];
        let p = p_of(&mut b, start);
        let must_split = data.len() > 65524;
        let half = broken == Some(Broken::HalfObject);
        if must_split || half || tape::chance(sh.frag, 16) {
            probe(Ev::PFragment);
            if must_split {
                probe(Ev::PBigObject);
            }
            let lo = data.len().saturating_sub(65531);
            let hi = data.len().min(65524);
            let cut = match tape::weighted(&[4, 1, 1]) {
                0 => tape::urange(lo, hi),
                1 => lo,
                _ => hi,
            };
            let mut a = head.to_vec();
            a.push(0x80);
            a.extend_from_slice(&olen.to_be_bytes()[1..]);
            a.extend_from_slice(&dim);
            a.extend_from_slice(&data[..cut]);
            seg(out, ODS, p, 0, &a);
            let mut c = head.to_vec();
            c.push(0x40);
            c.extend_from_slice(&data[cut..]);
            if !half {
                seg(out, ODS, p, 0, &c);
            }
        } else {
            let mut a = head.to_vec();
            a.push(0xC0);
            a.extend_from_slice(&olen.to_be_bytes()[1..]);
            a.extend_from_slice(&dim);
            a.extend_from_slice(&data);
            seg(out, ODS, p, 0, &a);
        }
        if broken == Some(Broken::NoPalette) && tape::chance(1, 3) {
            // too late
            seg(out, PDS, p, 0, &pay);
        }
        img = Some(Img { w: w as u16, h: h as u16, ids: px, pal: table });
    } else {
        probe(Ev::PNoImage);
        if tape::chance(1, 2) {
            let (pay, _, _) = palette(&mut b);
            seg(out, PDS, start, 0, &pay);
        }
    }
    let d = b.below(1 << 32) as u32;
    seg(out, END, start, d, &[]);
    // hide set
    let n = tape::pick(&[1, 0, 2]);
    for _ in 0..n {
        let pay = skip_payload(&mut b, sh.skip_max);
        let p = p_of(&mut b, end);
        seg(out, PCS, p, 0, &pay);
    }
    if tape::chance(1, 2) {
        let pay = skip_payload(&mut b, sh.skip_max);
        seg(out, WDS, end, 0, &pay);
    }
    if tape::chance(sh.hide_pal, 16) {
        probe(Ev::PHidePal);
        let (pay, _, _) = palette(&mut b);
        seg(out, PDS, end, 0, &pay);
    }
    let d = b.below(1 << 32) as u32;
    seg(out, END, end, d, &[]);
    if let Some(k) = broken {
        crate::world::ev(Ev::Broken, out.pairs.len() as u64, k as u64);
    }
    out.pairs.push(Pair { start, end, img, broken });
    out.ends.push(out.bytes.len());
    crate::note!(
        "  pair {}: {}..{} {} {} bytes {}..{}",
        out.pairs.len() - 1,
        start,
        end,
        out.pairs.last().unwrap().img.as_ref().map_or("no image".to_owned(), |i| format!("{}x{}", i.w, i.h)),
        broken.map_or(String::new(), |b| format!("{b:?}")),
        out.begin_of(out.pairs.len() - 1),
        out.bytes.len()
    );
}
pub fn stream(n: usize, sh: &Shape) -> Stream {
    let mut s = Stream::default();
    for _ in 0..n {
        put_pair(&mut s, sh, None);
    }
    let ms: u64 = s.pairs.iter().map(|p| u64::from(p.end.saturating_sub(p.start) / 90)).sum();
    crate::world::sh().media_ms += ms;
    s
}

/// What one item of the times-and-image decoder must be.
pub fn check_image(what: &str, i: usize, want: &Img, got: &RleEncodedImage) {
    use subtile::image::ImageSize as _;
    let (w, h) = (got.width(), got.height());
    if (w, h) != (u32::from(want.w), u32::from(want.h)) {
        crate::fail!("image-size", "{what}: image {i} is {w}x{h}, encoded {}x{}", want.w, want.h);
    }
    let exp = want.expected();
    let px: Vec<(u8, u8)> = crate::world::lib(|| got.iter().take(exp.len() + 1).map(|p| (p.0[0], p.0[1])).collect());
    if px != exp {
        let at = px.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(px.len().min(exp.len()));
        crate::fail!(
            "image-pixels",
            "{what}: image {i} ({w}x{h}): {} pixels, expected {}; first difference at {at}: got {:?}, encoded {:?}",
            px.len(),
            exp.len(),
            px.get(at),
            exp.get(at)
        );
    }
    probe(Ev::PImageOk);
}
pub fn span_of(t: &TimeSpan) -> (i64, i64) {
    (t.start.msecs(), t.end.msecs())
}
