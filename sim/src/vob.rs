//! The VobSub model and an independent encoder: subtitle units, MPEG-2 packs, packetisation.

use crate::tape::{self, Bulk};
use crate::world::{ev, probe, Ev};
use subtile::image::{ImageArea as _, ImageSize as _};
use subtile::time::TimeSpan;
use subtile::vobsub::VobSubIndexedImage;

#[derive(Clone)]
pub struct Unit {
    pub pts: u64,
    pub x: u16,
    pub y: u16,
    pub w: usize,
    pub h: usize,
    /// as the decoded image lists them (lowest colour first)
    pub pal: [u8; 4],
    pub alpha: [u8; 4],
    pub start: u16,
    pub stop: Option<u16>,
    pub px: Vec<u8>,
    pub spu: Vec<u8>,
    /// the unit can't be decoded (None: it can)
    pub broken: Option<Broken>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Broken {
    NoStart,
    NoPalette,
    NoAlpha,
    NoArea,
    NoOffsets,
    /// the position spans fewer than two rows or columns
    FlatArea,
    /// the control block lies outside the unit
    ControlOut,
    /// the last sequence points backwards, or out of the unit
    NextBack,
    NextOut,
    /// the second field starts before the first, or behind the bitmap
    FieldsBack,
    FieldsOut,
    /// a run is longer than its line
    LongRun,
    /// the first packet has no timestamp
    NoPts,
    /// too few bytes for a unit
    Tiny,
    /// the size cuts the control block short (its packet holds more)
    CutSize,
}
pub const BROKEN: [Broken; 15] = [
    Broken::NoStart,
    Broken::NoPalette,
    Broken::NoAlpha,
    Broken::NoArea,
    Broken::NoOffsets,
    Broken::FlatArea,
    Broken::ControlOut,
    Broken::NextBack,
    Broken::NextOut,
    Broken::FieldsBack,
    Broken::FieldsOut,
    Broken::LongRun,
    Broken::NoPts,
    Broken::Tiny,
    Broken::CutSize,
];
impl Unit {
    fn ticks(&self, date: u16) -> u64 {
        self.pts + 900 * u64::from(date)
    }
    /// Exact start and end in 1/90 ms.
    pub fn span_ticks(&self) -> (u64, u64) {
        let s = self.ticks(self.start);
        (s, self.stop.map_or(s + 450_000, |d| self.ticks(d)))
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Pack {
    pub at: usize,
    pub end: usize,
    /// the subtitle whose bytes it carries (None: foreign)
    pub sub: Option<usize>,
    /// file offset and length of the carried subtitle bytes
    pub data_at: usize,
    pub data_len: usize,
    pub first: bool,
}
#[derive(Clone, Default)]
pub struct Vob {
    pub bytes: Vec<u8>,
    pub subs: Vec<Unit>,
    pub packs: Vec<Pack>,
    /// file offset where the last packet of the subtitle ends
    pub ends: Vec<usize>,
    pub begins: Vec<usize>,
}

/// Workload shape, drawn once per run.
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_w: u64,
    pub max_h: u64,
    /// chances of 16
    pub foreign: u64,
    pub junk: u64,
    pub stuffing: u64,
    pub extra: u64,
    pub dts: u64,
    pub same_pts: u64,
    pub empty: u64,
    pub excess: u64,
    pub other_track: u64,
    /// the other track's packets are large
    pub wide: bool,
    pub lookalike: u64,
    pub no_stop: u64,
    pub split: u64,
    pub noncanon: u64,
    /// chance of 16 of a unit that can't be decoded
    pub broken: u64,
    pub repeats: u64,
    /// timestamps far apart from each other bitwise
    pub apart: bool,
    pub big: u64,
    /// some units come near the largest size
    pub full: bool,
}
impl Shape {
    pub fn draw() -> Self {
        Self {
            max_w: tape::pick(&[12, 3, 60, 300, 800]),
            max_h: tape::pick(&[6, 3, 25]),
            foreign: tape::pick(&[0, 0, 3, 8]),
            junk: tape::pick(&[0, 0, 3, 10]),
            stuffing: tape::pick(&[0, 4, 12]),
            extra: tape::pick(&[0, 0, 5, 12]),
            dts: tape::pick(&[0, 0, 5, 16]),
            same_pts: tape::pick(&[0, 0, 0, 8, 16]),
            empty: tape::pick(&[0, 0, 3]),
            excess: tape::pick(&[0, 0, 0, 3]),
            other_track: tape::pick(&[0, 0, 3, 10]),
            wide: tape::chance(1, 5),
            lookalike: tape::pick(&[0, 0, 6]),
            no_stop: tape::pick(&[0, 2, 8]),
            split: tape::below(5),
            noncanon: tape::pick(&[0, 0, 5]),
            broken: 0,
            repeats: tape::pick(&[0, 0, 6]),
            apart: false,
            big: tape::pick(&[0, 0, 0, 0, 0, 0, 2]),
            full: tape::chance(1, 60),
        }
    }
    /// Without anything that makes a lost pack ambiguous.
    pub fn loss_safe(mut self) -> Self {
        self.same_pts = 0;
        self.excess = 0;
        self.other_track = 0;
        self.empty = 0;
        self.apart = true;
        self
    }
}

// ---------------------------------------------------------------- bitmap

struct Nibbles {
    out: Vec<u8>,
    half: bool,
}
impl Nibbles {
    fn put(&mut self, v: u16, nibbles: u32) {
        for i in (0..nibbles).rev() {
            let n = (v >> (4 * i)) as u8 & 0xf;
            if self.half {
                *self.out.last_mut().expect("half a byte") |= n;
            } else {
                self.out.push(n << 4);
            }
            self.half = !self.half;
        }
    }
}
fn put_code(n: &mut Nibbles, count: usize, val: u8, noncanon: bool, b: &mut Bulk) {
    let v = (count as u16) << 2 | u16::from(val);
    let min = match count {
        1..=3 => 1,
        4..=15 => 2,
        16..=63 => 3,
        _ => 4,
    };
    // a count fits the four-nibble form whatever its size
    let len = if noncanon && b.chance(1, 4) { 4 } else { min };
    n.put(v, len);
}
fn encode_row(row: &[u8], fill: bool, noncanon: bool, b: &mut Bulk) -> Vec<u8> {
    let mut n = Nibbles { out: Vec::new(), half: false };
    let mut x = 0;
    while x < row.len() {
        let val = row[x];
        let run = row[x..].iter().take_while(|p| **p == val).count();
        if x + run == row.len() && (fill || run > 255) {
            n.put(u16::from(val), 4);
            x += run;
            continue;
        }
        let mut k = run.min(255);
        if noncanon && k > 1 && b.chance(1, 4) {
            k = 1 + b.below(k as u64) as usize;
        }
        put_code(&mut n, k, val, noncanon, b);
        x += k;
    }
    n.out
}
fn draw_px(w: usize, h: usize, b: &mut Bulk) -> Vec<u8> {
    let style = tape::below(6);
    let mut px = Vec::with_capacity(w * h);
    let mut row = Vec::new();
    for y in 0..h {
        // doubled lines: both fields carry the same bytes
        if y % 2 == 1 && (style == 4 || (style == 5 && b.chance(1, 2))) {
            px.extend_from_slice(&row);
            continue;
        }
        row.clear();
        while row.len() < w {
            let run = match style {
                0 => 1 + b.below(6) as usize,
                1 => 1,
                2 => 1 + b.below(300) as usize,
                3 => [1, 3, 4, 15, 16, 63, 64, 255, 256, 300][b.below(10) as usize],
                _ => 1 + b.below(40) as usize,
            };
            let v = b.below(4) as u8;
            for _ in 0..run.min(w - row.len()) {
                row.push(v);
            }
        }
        // lines usually end in background
        if b.chance(1, 3) {
            let k = 1 + b.below(w as u64) as usize;
            row[w - k..].fill(0);
        }
        px.extend_from_slice(&row);
    }
    px
}

// ---------------------------------------------------------------- subtitle unit

#[derive(Clone)]
enum Cmd {
    Force,
    Start,
    Stop,
    Pal([u8; 4]),
    Alpha([u8; 4]),
    Area(u16, u16, u16, u16),
    Offsets,
    Other(Vec<u8>),
}
/// Bytes the sequences take.
fn seqs_len(seqs: &[Vec<Cmd>]) -> usize {
    let cmd = |c: &Cmd| match c {
        Cmd::Force | Cmd::Start | Cmd::Stop => 1,
        Cmd::Pal(_) | Cmd::Alpha(_) => 3,
        Cmd::Area(..) => 7,
        Cmd::Offsets => 5,
        Cmd::Other(v) => v.len(),
    };
    seqs.iter().map(|s| 5 + s.iter().map(cmd).sum::<usize>()).sum()
}
fn area_bytes(x1: u16, x2: u16, y1: u16, y2: u16) -> [u8; 6] {
    [
        (x1 >> 4) as u8,
        ((x1 & 0xf) << 4 | x2 >> 8) as u8,
        x2 as u8,
        (y1 >> 4) as u8,
        ((y1 & 0xf) << 4 | y2 >> 8) as u8,
        y2 as u8,
    ]
}
fn nib4(v: [u8; 4]) -> [u8; 2] {
    // highest colour first on disk
    [v[3] << 4 | v[2], v[1] << 4 | v[0]]
}
fn draw4(b: &mut Bulk) -> [u8; 4] {
    if b.chance(1, 8) {
        return [[0, 15, 1, b.below(16) as u8][b.below(4) as usize]; 4];
    }
    [b.below(16) as u8, b.below(16) as u8, b.below(16) as u8, b.below(16) as u8]
}
fn gap(b: &mut Bulk, sh: &Shape) -> Vec<u8> {
    let n = match tape::weighted(&[8, 2, 1]) {
        0 => 0,
        1 => tape::urange(1, 6),
        _ => tape::urange(1, 60),
    };
    let mut v = b.bytes(n);
    if n >= 8 && tape::chance(sh.lookalike, 16) {
        let at = tape::urange(0, n - 4);
        v[at..at + 4].copy_from_slice(&[0, 0, 1, tape::pick(&[0xba, 0xbd])]);
    }
    v
}

fn draw_pts() -> u64 {
    let max = (1 << 33) - 1;
    tape::edgy(0, max, &[90, 1 << 15, 1 << 17, 1 << 30, 1 << 32, 90_000 * 3600, max - 90])
}

fn draw_unit(sh: &Shape, others: &[Unit]) -> Unit {
    let mut b = tape::bulk();
    let mut pts = draw_pts();
    if sh.apart {
        while others.iter().any(|o| (o.pts ^ pts).count_ones() < 6) {
            pts = (pts ^ 0x0_5a5a_5a5a).wrapping_mul(0x9E37_79B1).wrapping_add(0x1_2345) & ((1 << 33) - 1);
        }
    }
    if pts >= 1 << 30 {
        probe(Ev::PFullPts);
    }
    if pts >= 1 << 15 {
        probe(Ev::PBigOffset);
    }
    let (w, h) = if tape::chance(sh.big, 16) {
        match tape::below(6) {
            0 => (tape::urange(1500, 4096), tape::urange(2, 20)),
            1 => (tape::urange(2, 8), tape::urange(300, 4096)),
            _ => (tape::urange(500, 1500), tape::urange(30, 300)),
        }
    } else {
        (tape::range(2, sh.max_w) as usize, tape::range(2, sh.max_h) as usize)
    };
    let x = tape::edgy(0, 4096 - w as u64, &[]) as u16;
    let y = tape::edgy(0, 4096 - h as u64, &[]) as u16;
    let (pal, alpha) = (draw4(&mut b), draw4(&mut b));
    let noncanon = tape::chance(sh.noncanon, 16);
    let fill_all = tape::chance(1, 2);
    let mut px = draw_px(w, h, &mut b);
    // control dates
    let mut broken = if sh.broken > 0 && tape::chance(sh.broken, 16) { Some(tape::pick(&BROKEN)) } else { None };
    let mut nseq = match tape::weighted(&[4, 4, 1, 1]) {
        0 => 2,
        1 => 1,
        2 => 3,
        _ => 4,
    };
    if w * h < 4000 && tape::chance(1, 50) {
        nseq = if tape::chance(3, 4) { tape::urange(5, 40) } else { tape::urange(40, 400) };
        probe(Ev::PLongChain);
    }
    let mut dates = Vec::new();
    for k in 0..nseq {
        dates.push(if k == 0 && tape::chance(2, 3) {
            0
        } else if k > 5 {
            b.below(65536) as u16
        } else {
            tape::edgy(0, 65535, &[100, 500]) as u16
        });
    }
    // which sequence carries what
    let spread = tape::chance(1, 3);
    let where_ = |n: usize| if spread { tape::urange(0, n - 1) } else { 0 };
    let mut seqs: Vec<Vec<Cmd>> = vec![Vec::new(); nseq];
    let last = nseq - 1;
    let start_in = where_(nseq);
    let mut fixed: Vec<(usize, Cmd)> = vec![
        (start_in, Cmd::Start),
        (where_(nseq), Cmd::Pal(pal)),
        (where_(nseq), Cmd::Alpha(alpha)),
        (where_(nseq), Cmd::Area(x, x + w as u16 - 1, y, y + h as u16 - 1)),
        (where_(nseq), Cmd::Offsets),
    ];
    let no_stop = tape::chance(sh.no_stop, 16);
    let stop_in = if no_stop {
        probe(Ev::PNoStop);
        None
    } else {
        let k = if tape::chance(1, 4) { tape::urange(0, last) } else { last };
        fixed.push((k, Cmd::Stop));
        Some(k)
    };
    // any order inside a sequence
    if tape::chance(1, 3) {
        for i in (1..fixed.len()).rev() {
            fixed.swap(i, b.below(i as u64 + 1) as usize);
        }
    }
    for (k, c) in &fixed {
        seqs[*k].push(c.clone());
    }
    if tape::chance(1, 4) {
        let k = tape::urange(0, last);
        let at = tape::urange(0, seqs[k].len());
        seqs[k].insert(at, Cmd::Force);
    }
    // repeats come after the first of their kind
    for _ in 0..4 {
        if !tape::chance(sh.repeats, 16) {
            continue;
        }
        let (k0, c) = match tape::below(5) {
            0 => (start_in, Cmd::Start),
            1 if stop_in.is_some() => (stop_in.unwrap_or(0), Cmd::Stop),
            1 | 2 => (fixed.iter().find(|f| matches!(f.1, Cmd::Pal(_))).map_or(0, |f| f.0), Cmd::Pal(draw4(&mut b))),
            3 => (fixed.iter().find(|f| matches!(f.1, Cmd::Alpha(_))).map_or(0, |f| f.0), Cmd::Alpha(draw4(&mut b))),
            _ => {
                let x1 = tape::urange(0, 100) as u16;
                let y1 = tape::urange(0, 100) as u16;
                (
                    fixed.iter().find(|f| matches!(f.1, Cmd::Area(..))).map_or(0, |f| f.0),
                    Cmd::Area(x1, x1 + tape::urange(1, 50) as u16, y1, y1 + tape::urange(1, 50) as u16),
                )
            }
        };
        let k = tape::urange(k0, last);
        seqs[k].push(c);
    }
    if tape::chance(1, 8) {
        // an unsupported command (CHG_COLCON and friends) closes its sequence
        let k = tape::urange(0, last);
        let mut v = vec![tape::pick(&[7u8, 8, 0x10, 0xfe])];
        for _ in 0..tape::urange(1, 20) {
            v.push(b.below(255) as u8);
        }
        seqs[k].push(Cmd::Other(v));
    }
    for s in &mut seqs {
        s.retain(|c| {
            !matches!(
                (broken, c),
                (Some(Broken::NoStart), Cmd::Start)
                    | (Some(Broken::NoPalette), Cmd::Pal(_))
                    | (Some(Broken::NoAlpha), Cmd::Alpha(_))
                    | (Some(Broken::NoArea), Cmd::Area(..))
                    | (Some(Broken::NoOffsets), Cmd::Offsets)
            )
        });
    }
    if broken == Some(Broken::FlatArea) {
        let k = tape::below(4);
        let less = tape::pick(&[0u16, 0, 1, 7, 4095]);
        if let Some(Cmd::Area(x1, x2, y1, y2)) = seqs.iter_mut().flatten().find(|c| matches!(c, Cmd::Area(..))) {
            match k {
                0 => *x2 = x1.saturating_sub(less),
                1 => *y2 = y1.saturating_sub(less),
                2 => (*x1, *x2) = (*x2, *x1),
                _ => (*y1, *y2) = (*y2, *y1),
            }
        }
    }
    // every line of the first field but its first repeats a line of the second one
    let stair = h > 2 && tape::chance(1, 12);
    if stair {
        for y in (2..h).step_by(2) {
            px.copy_within((y - 1) * w..y * w, y * w);
        }
    }
    // bitmap fields
    let want_overlap = !stair && dates[0] == 0 && tape::chance(1, 3);
    if want_overlap {
        // the last line ends in background, encoded as a fill
        let y_last = if h % 2 == 0 { h - 1 } else { h - 2 };
        let k = 1 + b.below(w as u64) as usize;
        let end = (y_last + 1) * w;
        px[end - k..end].fill(0);
    }
    let field = |which: usize, b: &mut Bulk| {
        let mut f: Vec<u8> = Vec::new();
        let mut yy = which;
        while yy < h {
            let last_row = yy + 2 >= h;
            let fill = (fill_all && b.chance(2, 3)) || (want_overlap && last_row);
            f.extend_from_slice(&encode_row(&px[yy * w..(yy + 1) * w], fill, noncanon, b));
            yy += 2;
        }
        f
    };
    let mut f0 = field(0, &mut b);
    let mut f1 = field(1, &mut b);
    if stair {
        f0 = encode_row(&px[..w], fill_all, noncanon, &mut b);
        f1.clear();
        for y in (1..h).step_by(2) {
            let r = encode_row(&px[y * w..(y + 1) * w], fill_all && b.chance(2, 3), noncanon, &mut b);
            if y + 1 < h {
                f0.extend_from_slice(&r);
            }
            f1.extend_from_slice(&r);
        }
    }
    if broken == Some(Broken::LongRun) {
        let long = encode_row(&vec![tape::below(4) as u8; w + tape::urange(1, 100)], false, false, &mut b);
        if w < 100 && long.len() == 2 {
            let mut f = long;
            let to = if tape::chance(1, 2) { &mut f0 } else { &mut f1 };
            f.extend_from_slice(if tape::chance(1, 2) { to } else { &[0; 8] });
            *to = f;
        } else if w >= 100 && w % 255 > 0 && f0.len() + f1.len() < 60_000 {
            // runs of 255 pixels, the last one longer than the rest of the line
            let v = tape::below(4) as u16;
            let left = (w % 255) as u64;
            let n = tape::edgy(left + 1, 255, &[]) as u16;
            let run = |n: u16| (n << 2 | v).to_be_bytes();
            let mut f = run(255).repeat(w / 255);
            f.extend_from_slice(&run(n.max(64)));
            let to = if tape::chance(1, 2) { &mut f0 } else { &mut f1 };
            f.extend_from_slice(if tape::chance(1, 2) { to } else { &[0; 8] });
            *to = f;
        } else {
            broken = Some(Broken::NoStart);
            seqs.iter_mut().for_each(|s| s.retain(|c| !matches!(c, Cmd::Start)));
        }
    }
    // the same lines may come out of either field's encoding
    if broken != Some(Broken::LongRun) && f0.len() == f1.len() && px.chunks(2 * w).all(|p| p.len() == 2 * w && p[..w] == p[w..]) {
        f1 = f0.clone();
    }
    if f0.len() + f1.len() > 64_000 {
        // too long: one flat colour instead
        px.fill(1);
        let flat = encode_row(&px[..w], true, false, &mut b);
        f0 = flat.repeat(h.div_ceil(2));
        f1 = flat.repeat(h / 2);
    }
    // a unit near the largest size: filled up in one of its gaps, or behind its control block
    let full = sh.full && !matches!(broken, Some(Broken::NoPts | Broken::Tiny | Broken::CutSize)) && tape::chance(1, 4);
    let fill_at = if full { tape::below(5) } else { 9 };
    let need: usize = f0.len() + f1.len() + 600 + seqs.iter().flatten().map(|c| if let Cmd::Other(v) = c { v.len() } else { 7 }).sum::<usize>() + 5 * nseq;
    let room = 65535usize.saturating_sub(need);
    let room = room - tape::urange(0, room.min(80)).min(room);
    if full {
        probe(Ev::PFullUnit);
    }
    let mut spu = vec![0u8; 4];
    spu.extend_from_slice(&gap(&mut b, sh));
    if fill_at == 0 {
        spu.extend_from_slice(&b.bytes(room));
    }
    let off0 = spu.len();
    let share = tape::chance(1, 2);
    let off1;
    if share && f0.starts_with(&f1) {
        probe(Ev::PShared);
        spu.extend_from_slice(&f0);
        off1 = off0;
    } else if share && f1.starts_with(&f0) {
        probe(Ev::PShared);
        spu.extend_from_slice(&f1);
        off1 = off0;
    } else {
        spu.extend_from_slice(&f0);
        let mut over = 0;
        if share {
            over = (1..=f0.len().min(f1.len())).rev().find(|k| f0[f0.len() - k..] == f1[..*k]).unwrap_or(0);
            if over > 0 {
                probe(Ev::PShared);
            }
        }
        if over == 0 {
            spu.extend_from_slice(&gap(&mut b, sh));
            if fill_at == 1 {
                spu.extend_from_slice(&b.bytes(room));
            }
        }
        off1 = spu.len() - over;
        spu.extend_from_slice(&f1[over..]);
    }
    // the last bytes may double as the first control bytes
    let date0 = dates[0].to_be_bytes();
    if tape::chance(1, 2) && spu.ends_with(&date0) && spu.len() > off1 + 2 {
        spu.truncate(spu.len() - 2);
        probe(Ev::PShared);
    } else if tape::chance(1, 2) && spu.ends_with(&date0[..1]) && spu.len() > off1 + 1 {
        spu.truncate(spu.len() - 1);
        probe(Ev::PShared);
    } else {
        spu.extend_from_slice(&gap(&mut b, sh));
        if fill_at == 2 {
            let n = 65535usize.saturating_sub(spu.len() + 1 + seqs_len(&seqs) + tape::urange(0, 3));
            spu.extend_from_slice(&b.bytes(n));
        }
    }
    let mut ctrl = spu.len();
    let (mut off0, mut off1) = (off0, off1);
    match broken {
        Some(Broken::FieldsBack) => (off0, off1) = if off1 > off0 && tape::chance(1, 2) { (off1, off0) } else { (off0.max(off1), off0.max(off1) - tape::urange(1, 4)) },
        Some(Broken::FieldsOut) => off1 = tape::edgy(ctrl as u64 + 3, 65535, &[]) as usize,
        _ => {}
    }
    let mut last_at = 0;
    for (k, cmds) in seqs.iter().enumerate() {
        let at = spu.len();
        spu.extend_from_slice(&dates[k].to_be_bytes());
        spu.extend_from_slice(&[0, 0]);
        for c in cmds {
            match c {
                Cmd::Force => spu.push(0),
                Cmd::Start => spu.push(1),
                Cmd::Stop => spu.push(2),
                Cmd::Pal(p) => {
                    spu.push(3);
                    spu.extend_from_slice(&nib4(*p));
                }
                Cmd::Alpha(p) => {
                    spu.push(4);
                    spu.extend_from_slice(&nib4(*p));
                }
                Cmd::Area(x1, x2, y1, y2) => {
                    spu.push(5);
                    spu.extend_from_slice(&area_bytes(*x1, *x2, *y1, *y2));
                }
                Cmd::Offsets => {
                    spu.push(6);
                    spu.extend_from_slice(&(off0 as u16).to_be_bytes());
                    spu.extend_from_slice(&(off1 as u16).to_be_bytes());
                }
                Cmd::Other(v) => spu.extend_from_slice(v),
            }
        }
        spu.push(0xff);
        if k == last {
            last_at = at;
            spu[at + 2..at + 4].copy_from_slice(&(at as u16).to_be_bytes());
        } else {
            if k == 0 && fill_at == 3 {
                // the other sequences are the last bytes there can be
                let n = 65535usize.saturating_sub(spu.len() + 1 + seqs_len(&seqs[1..]) + tape::urange(0, 3));
                spu.extend_from_slice(&b.bytes(n));
            } else if k < 5 && !matches!(fill_at, 2 | 3) {
                spu.extend_from_slice(&gap(&mut b, sh));
            }
            let next = spu.len() as u16;
            spu[at + 2..at + 4].copy_from_slice(&next.to_be_bytes());
        }
    }
    if tape::chance(1, 4) {
        // units are often padded to an even size
        spu.push(tape::pick(&[0xff, 0]));
    }
    if full && tape::chance(3, 4) {
        let to = 65535 - tape::urange(0, 3);
        if to > spu.len() {
            let v = b.bytes(to - spu.len());
            spu.extend_from_slice(&v);
        }
    }
    let n = spu.len();
    assert!(n <= 65535);
    match broken {
        Some(Broken::ControlOut) => ctrl = tape::edgy(n as u64, 65535, &[]) as usize,
        Some(Broken::NextBack) => {
            let to = tape::urange(0, last_at - 1) as u16;
            spu[last_at + 2..last_at + 4].copy_from_slice(&to.to_be_bytes());
        }
        Some(Broken::NextOut) if n < 65535 => {
            let to = tape::edgy(n as u64, 65535, &[]) as u16;
            spu[last_at + 2..last_at + 4].copy_from_slice(&to.to_be_bytes());
        }
        Some(Broken::NextOut) => broken = None,
        _ => {}
    }
    spu[..2].copy_from_slice(&(n as u16).to_be_bytes());
    spu[2..4].copy_from_slice(&(ctrl as u16).to_be_bytes());
    if matches!(broken, Some(Broken::NoPts | Broken::Tiny)) {
        // fits one packet
        spu.truncate(50_000);
    }
    if broken == Some(Broken::CutSize) {
        if n <= 50_000 {
            let k = tape::edgy(4, last_at as u64 + 4, &[ctrl as u64, ctrl as u64 + 4, last_at as u64]);
            spu[..2].copy_from_slice(&(k as u16).to_be_bytes());
        } else {
            broken = None;
        }
    }
    if broken == Some(Broken::Tiny) {
        let k = tape::urange(0, 3);
        spu[..2].copy_from_slice(&(k as u16).to_be_bytes());
        if tape::chance(1, 2) {
            spu.truncate(k.max(1));
        }
    }
    Unit {
        broken,
        pts,
        x,
        y,
        w,
        h,
        pal,
        alpha,
        start: dates[start_in],
        stop: stop_in.map(|k| dates[k]),
        px,
        spu,
    }
}

// ---------------------------------------------------------------- packs

fn scr(b: &mut Bulk) -> [u8; 6] {
    let t = b.below(1 << 33);
    let e = b.below(300);
    [
        (0x44 | (t >> 27 & 0x38) | (t >> 28 & 3)) as u8,
        (t >> 20) as u8,
        (t >> 12 & 0xf8 | 4 | t >> 13 & 3) as u8,
        (t >> 5) as u8,
        (t << 3 & 0xf8 | 4 | e >> 7 & 3) as u8,
        (e << 1 & 0xff | 1) as u8,
    ]
}
fn stamp(tag: u8, t: u64) -> [u8; 5] {
    [
        tag << 4 | (t >> 29 & 0xe) as u8 | 1,
        (t >> 22) as u8,
        (t >> 14 & 0xfe) as u8 | 1,
        (t >> 7) as u8,
        (t << 1 & 0xfe) as u8 | 1,
    ]
}
/// Removes accidental pack start codes from `v[from..]` (keeping what lies before).
fn scrub(v: &mut [u8], from: usize) {
    let mut i = from.saturating_sub(3);
    while i + 4 <= v.len() {
        if v[i..i + 4] == [0, 0, 1, 0xba] {
            v[i + 3] = 0xb7;
        }
        i += 1;
    }
}
fn pack_header(out: &mut Vec<u8>, b: &mut Bulk, sh: &Shape) {
    out.extend_from_slice(&[0, 0, 1, 0xba]);
    out.extend_from_slice(&scr(b));
    let rate = b.below(1 << 22);
    let stuff = if tape::chance(sh.stuffing, 16) { tape::below(8) } else { 0 };
    out.extend_from_slice(&[(rate >> 14) as u8, (rate >> 6) as u8, (rate << 2) as u8 | 3, (b.below(32) << 3 | stuff) as u8]);
    for _ in 0..stuff {
        out.push(if b.chance(1, 4) { b.byte() } else { 0xff });
    }
}
/// The packet carrying subtitle bytes. Returns the offset of the bytes.
#[allow(clippy::too_many_arguments)]
fn pes(out: &mut Vec<u8>, b: &mut Bulk, sh: &Shape, id: u8, pts: Option<u64>, data: &[u8]) -> usize {
    let mut head = Vec::new();
    let mut flags = 0u8;
    if let Some(t) = pts {
        if tape::chance(sh.dts, 16) {
            probe(Ev::PDts);
            flags = 0xc0;
            head.extend_from_slice(&stamp(3, t));
            head.extend_from_slice(&stamp(1, b.below(1 << 33)));
        } else {
            flags = 0x80;
            head.extend_from_slice(&stamp(2, t));
        }
    }
    if tape::chance(sh.extra, 16) {
        flags |= b.below(64) as u8;
        // seldom as long as it can be
        let n = if tape::chance(1, 12) { tape::urange(100, 255 - head.len()) } else { tape::urange(0, 20) };
        for _ in 0..n {
            head.push(if b.chance(1, 2) { 0xff } else { b.byte() });
        }
    }
    let h1 = 0x80 | if tape::chance(sh.extra, 16) { b.below(64) as u8 } else { 1 };
    out.extend_from_slice(&[0, 0, 1, 0xbd]);
    let len = 3 + head.len() + 1 + data.len();
    out.extend_from_slice(&(len as u16).to_be_bytes());
    out.extend_from_slice(&[h1, flags, head.len() as u8]);
    out.extend_from_slice(&head);
    out.push(id);
    let at = out.len();
    out.extend_from_slice(data);
    at
}
fn foreign_pack(v: &mut Vob, b: &mut Bulk, sh: &Shape) {
    ev(Ev::ForeignPack, v.bytes.len() as u64, 0);
    let at = v.bytes.len();
    pack_header(&mut v.bytes, b, sh);
    let n = if tape::chance(1, 12) { tape::urange(60, 2028) } else { tape::urange(0, 60) };
    let id = tape::pick(&[0xbeu8, 0xbb, 0xe0, 0xc0, 0xbf]);
    v.bytes.extend_from_slice(&[0, 0, 1, id]);
    v.bytes.extend_from_slice(&(n as u16).to_be_bytes());
    let from = v.bytes.len();
    v.bytes.extend_from_slice(&b.bytes(n));
    scrub(&mut v.bytes, from);
    let end = v.bytes.len();
    v.packs.push(Pack { at, end, sub: None, data_at: end, data_len: 0, first: false });
}
fn other_track(v: &mut Vob, b: &mut Bulk, sh: &Shape, id: u8) {
    ev(Ev::ForeignPack, v.bytes.len() as u64, 1);
    let at = v.bytes.len();
    pack_header(&mut v.bytes, b, sh);
    let n = if sh.wide { tape::urange(60, 20_000) } else { tape::urange(2, 60) };
    let data = b.bytes(n);
    let pts = if tape::chance(1, 2) { Some(b.below(1 << 33)) } else { None };
    pes(&mut v.bytes, b, sh, id, pts, &data);
    let end = v.bytes.len();
    v.packs.push(Pack { at, end, sub: None, data_at: end, data_len: 0, first: false });
}
pub fn junk(v: &mut Vec<u8>, b: &mut Bulk, n: usize) {
    let from = v.len();
    v.extend_from_slice(&b.bytes(n));
    scrub(v, from);
}
fn between(v: &mut Vob, b: &mut Bulk, sh: &Shape) {
    if tape::chance(sh.junk, 16) {
        let n = if tape::chance(1, 60) {
            probe(Ev::PLongJunk);
            tape::urange(40, 9000)
        } else {
            tape::urange(1, 40)
        };
        ev(Ev::Junk, v.bytes.len() as u64, n as u64);
        junk(&mut v.bytes, b, n);
    }
    if tape::chance(sh.foreign, 16) {
        foreign_pack(v, b, sh);
    }
    if sh.foreign > 0 && tape::chance(1, 150) {
        // a stretch of film without subtitles
        probe(Ev::PManyPacks);
        for _ in 0..tape::urange(10, 120) {
            foreign_pack(v, b, sh);
        }
    }
}
fn padding(v: &mut Vob, b: &mut Bulk) {
    // a padding packet in the same pack
    let n = tape::urange(0, 40);
    v.bytes.extend_from_slice(&[0, 0, 1, 0xbe, 0, n as u8]);
    let from = v.bytes.len();
    if b.chance(1, 2) {
        v.bytes.extend(std::iter::repeat_n(0xff, n));
    } else {
        v.bytes.extend_from_slice(&b.bytes(n));
    }
    scrub(&mut v.bytes, from);
}

/// Draws one subtitle and appends its packs.
pub fn put_unit(v: &mut Vob, sh: &Shape, id: u8) {
    let u = draw_unit(sh, &v.subs);
    put_packs(v, sh, id, u);
}
pub fn put_packs(v: &mut Vob, sh: &Shape, id: u8, u: Unit) {
    let mut b = tape::bulk();
    let i = v.subs.len();
    between(v, &mut b, sh);
    let begin = v.bytes.len();
    let n = u.spu.len();
    // cut points
    let mut sizes: Vec<usize> = Vec::new();
    let most = if tape::chance(1, 80) { 800 } else { 24 };
    let mut left = n;
    // what can't be told to belong to a subtitle stays in one packet
    let lone = matches!(u.broken, Some(Broken::NoPts | Broken::Tiny | Broken::CutSize));
    let style = if lone { 0 } else if tape::chance(1, 3) { tape::below(5) } else { sh.split };
    while left > 0 {
        let k = match style {
            0 => left.min(60_000),
            1 => 2020.min(left),
            2 => 2 + b.below(20) as usize,
            3 => 2 + b.below(left as u64) as usize,
            _ => 1 + b.below(200) as usize,
        };
        let lo = if sizes.is_empty() { 2 } else { 1 };
        let mut k = k.clamp(lo, left.max(lo)).min(left).min(60_000);
        // mostly no more than a few dozen packs
        if sizes.len() > most {
            k = left.min(60_000);
        }
        sizes.push(k);
        left -= k;
    }
    if let Some(k) = u.broken {
        ev(Ev::Broken, i as u64, k as u64);
        crate::note!("  subtitle {i} is undecodable: {k:?}");
    }
    if sizes.len() > 100 {
        probe(Ev::PManyPieces);
    }
    if sizes.len() > 1 {
        ev(Ev::Packetise, i as u64, sizes.len() as u64);
    }
    let mut at = 0;
    let total = sizes.len();
    for (k, size) in sizes.into_iter().enumerate() {
        let last = k + 1 == total;
        if k > 0 {
            between(v, &mut b, sh);
            if tape::chance(sh.other_track, 16) {
                // another subtitle track, or any other kind of private data
                let other = match tape::below(4) {
                    0 => id ^ tape::range(1, 31) as u8,
                    1 => id ^ (1 << tape::below(8)),
                    2 => tape::pick(&[0x80u8, 0x88, 0xa0, 0x00, 0xff, 0x40]) | (id & 0x1f),
                    _ => id ^ tape::range(1, 255) as u8,
                };
                other_track(v, &mut b, sh, other);
            }
            if tape::chance(sh.empty, 16) {
                let p = v.bytes.len();
                pack_header(&mut v.bytes, &mut b, sh);
                pes(&mut v.bytes, &mut b, sh, id, None, &[]);
                let end = v.bytes.len();
                v.packs.push(Pack { at: p, end, sub: Some(i), data_at: end, data_len: 0, first: false });
            }
        }
        let p = v.bytes.len();
        pack_header(&mut v.bytes, &mut b, sh);
        let pts = if u.broken == Some(Broken::NoPts) {
            None
        } else if k == 0 || tape::chance(sh.same_pts, 16) { Some(u.pts) } else { None };
        let mut data = u.spu[at..at + size].to_vec();
        if last && size < 50_000 && !lone && tape::chance(sh.excess, 16) {
            let n = tape::urange(1, 9);
            data.extend_from_slice(&b.bytes(n));
        }
        let data_at = pes(&mut v.bytes, &mut b, sh, id, pts, &data);
        let end = v.bytes.len();
        v.packs.push(Pack { at: p, end, sub: Some(i), data_at, data_len: data.len(), first: k == 0 });
        at += size;
        if last {
            v.ends.push(end);
        }
        if tape::chance(sh.foreign, 16) {
            padding(v, &mut b);
        }
    }
    crate::note!(
        "  subtitle {i}: pts {} +{} / {:?} at {},{} {}x{}, {} bytes in {total} packs, file bytes {begin}..{}",
        u.pts,
        u.start,
        u.stop,
        u.x,
        u.y,
        u.w,
        u.h,
        n,
        v.bytes.len()
    );
    v.begins.push(begin);
    let (s, e) = u.span_ticks();
    crate::world::sh().media_ms += e.saturating_sub(s) / 90;
    v.subs.push(u);
}
pub fn draw_track() -> u8 {
    0x20 + tape::pick(&[0u8, 1, 5, 31])
}
pub fn stream(n: usize, sh: &Shape) -> Vob {
    let mut v = Vob::default();
    let id = draw_track();
    for _ in 0..n {
        put_unit(&mut v, sh, id);
    }
    let mut b = tape::bulk();
    between(&mut v, &mut b, sh);
    if tape::chance(1, 4) {
        v.bytes.extend_from_slice(&[0, 0, 1, 0xb9]);
    }
    v
}

// ---------------------------------------------------------------- comparison

fn time_ok(ticks: u64, ms: i64) -> bool {
    let exact = (ticks / 90) as i64;
    ms == exact || (ticks % 90 == 0 && ms == exact - 1)
}
/// None when the yielded subtitle is exactly the encoded one; otherwise what differs.
pub fn differs(u: &Unit, t: &TimeSpan, im: &VobSubIndexedImage) -> Option<(&'static str, String)> {
    let (s, e) = u.span_ticks();
    if !time_ok(s, t.start.msecs()) {
        return Some(("wrong-start", format!("starts at {} ms instead of {}", t.start.msecs(), s / 90)));
    }
    if !time_ok(e, t.end.msecs()) {
        return Some(("wrong-end", format!("ends at {} ms instead of {}", t.end.msecs(), e / 90)));
    }
    let a = im.area();
    let got = (a.left(), a.top(), a.width(), a.height());
    let want = (u.x, u.y, u.w as u16, u.h as u16);
    if got != want {
        return Some(("wrong-area", format!("area {got:?} instead of {want:?}")));
    }
    if (im.width(), im.height()) != (u.w as u32, u.h as u32) {
        return Some(("wrong-area", format!("size {}x{} instead of {}x{}", im.width(), im.height(), u.w, u.h)));
    }
    if *im.palette() != u.pal {
        return Some(("wrong-colours", format!("colours {:?} instead of {:?}", im.palette(), u.pal)));
    }
    if *im.alpha() != u.alpha {
        return Some(("wrong-alpha", format!("alpha {:?} instead of {:?}", im.alpha(), u.alpha)));
    }
    if im.raw_image() != u.px {
        let at = im.raw_image().iter().zip(&u.px).position(|(a, b)| a != b).unwrap_or(0);
        return Some((
            "wrong-pixels",
            format!("{}x{} bitmap of {} pixels differs first at {at}: {:?} instead of {:?}", u.w, u.h, im.raw_image().len(), im.raw_image().get(at), u.px.get(at)),
        ));
    }
    None
}
