// Small builders of PGS and VobSub streams and readers that misbehave legally.
#![allow(dead_code)]
use std::io::{self, BufRead, Read, Seek, SeekFrom};

pub fn seg(pts: u32, kind: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0x50, 0x47];
    v.extend(pts.to_be_bytes());
    v.extend([0; 4]);
    v.push(kind);
    v.extend((payload.len() as u16).to_be_bytes());
    v.extend(payload);
    v
}
pub fn pcs(pts: u32) -> Vec<u8> {
    seg(pts, 0x16, &[7, 128, 4, 56, 16, 0, 0, 128, 0, 0, 0])
}
pub fn wds(pts: u32) -> Vec<u8> {
    seg(pts, 0x17, &[1, 0, 0, 0, 0, 0, 0, 0, 9, 0])
}
pub fn end(pts: u32) -> Vec<u8> {
    seg(pts, 0x80, &[])
}
/// entries: (id, luminance, alpha)
pub fn pds(pts: u32, entries: &[(u8, u8, u8)]) -> Vec<u8> {
    let mut p = vec![0, 0];
    for (id, y, a) in entries {
        p.extend([*id, *y, 0x80, 0x80, *a]);
    }
    seg(pts, 0x14, &p)
}
pub fn ods(pts: u32, w: u16, h: u16, data: &[u8]) -> Vec<u8> {
    let mut p = vec![0, 0, 0, 0xC0];
    p.extend(&((data.len() + 4) as u32).to_be_bytes()[1..]);
    p.extend(w.to_be_bytes());
    p.extend(h.to_be_bytes());
    p.extend(data);
    seg(pts, 0x15, &p)
}
/// one object in two fragments
pub fn ods2(pts: u32, w: u16, h: u16, data: &[u8], cut: usize) -> Vec<u8> {
    let mut p = vec![0, 0, 0, 0x80];
    p.extend(&((data.len() + 4) as u32).to_be_bytes()[1..]);
    p.extend(w.to_be_bytes());
    p.extend(h.to_be_bytes());
    p.extend(&data[..cut]);
    let mut v = seg(pts, 0x15, &p);
    let mut p = vec![0, 0, 0, 0x40];
    p.extend(&data[cut..]);
    v.extend(seg(pts, 0x15, &p));
    v
}
pub fn rle(rows: &[&[(u8, u16)]]) -> Vec<u8> {
    let mut v = vec![];
    for row in rows {
        for &(c, n) in *row {
            match (c, n) {
                (1.., 1) => v.push(c),
                (0, 1..=63) => v.extend([0, n as u8]),
                (0, _) => v.extend([0, 0x40 | (n >> 8) as u8, n as u8]),
                (_, 2..=63) => v.extend([0, 0x80 | n as u8, c]),
                _ => v.extend([0, 0xC0 | (n >> 8) as u8, n as u8, c]),
            }
        }
        v.extend([0, 0]);
    }
    v
}
/// A show/hide pair with a 4x2 bitmap of the colours 1 and 0.
pub fn pair(t0: u32, t1: u32) -> Vec<u8> {
    let mut v = pcs(t0);
    v.extend(wds(t0));
    v.extend(pds(t0, &[(0, 10, 20), (1, 100, 255)]));
    v.extend(ods(t0, 4, 2, &rle(&[&[(1, 4)], &[(1, 1), (0, 3)]])));
    v.extend(end(t0));
    v.extend(pcs(t1));
    v.extend(wds(t1));
    v.extend(end(t1));
    v
}

/// A buffered seekable reader that delivers at most `chunk` bytes at a time.
pub struct Drip {
    pub data: Vec<u8>,
    pub pos: u64,
    /// end of what the last fill delivered
    pub filled: u64,
    pub chunk: u64,
    /// interrupt every n-th delivery (0: never)
    pub eintr: u64,
    pub calls: u64,
    /// reads at or behind this position fail
    pub fail_at: u64,
    pub kind: io::ErrorKind,
    pub failures: u64,
}
impl Drip {
    pub fn new(data: Vec<u8>, chunk: u64) -> Self {
        Self { data, pos: 0, filled: 0, chunk, eintr: 0, calls: 0, fail_at: u64::MAX, kind: io::ErrorKind::Other, failures: 0 }
    }
}
impl BufRead for Drip {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.filled <= self.pos {
            self.calls += 1;
            if self.eintr > 0 && self.calls % self.eintr == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            if self.pos >= self.fail_at {
                self.failures += 1;
                return Err(self.kind.into());
            }
            self.filled = (self.pos + self.chunk).min(self.data.len() as u64).min(self.fail_at).max(self.pos);
        }
        let a = (self.pos as usize).min(self.data.len());
        Ok(&self.data[a..(self.filled as usize).max(a)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
        assert!(self.pos <= self.filled);
    }
}
impl Read for Drip {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl Seek for Drip {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        self.pos = u64::try_from(p).map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        self.filled = self.pos;
        Ok(self.pos)
    }
}

// ------------------------------------------------------------ VobSub

pub struct Spu {
    pub x: (u16, u16),
    pub y: (u16, u16),
    /// as stored: the nibble of colour 3 first
    pub pal: u16,
    pub alpha: u16,
    pub start: u16,
    pub stop: Option<u16>,
    pub field0: Vec<u8>,
    pub field1: Vec<u8>,
    /// commands put in front of the StopDate in the second control sequence
    pub more: Vec<u8>,
    /// the pixel data may reach that many bytes into the control sequence
    pub share: usize,
}
impl Spu {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0, 0, 0, 0];
        let o0 = v.len() as u16;
        v.extend(&self.field0);
        let o1 = v.len() as u16;
        v.extend(&self.field1);
        let ctl = (v.len() - self.share) as u16;
        v.truncate(usize::from(ctl));
        v[2..4].copy_from_slice(&ctl.to_be_bytes());
        let mut first = vec![1, 3];
        first.extend(self.pal.to_be_bytes());
        first.push(4);
        first.extend(self.alpha.to_be_bytes());
        let (x1, x2) = self.x;
        let (y1, y2) = self.y;
        first.extend([5, (x1 >> 4) as u8, ((x1 & 15) << 4) as u8 | (x2 >> 8) as u8, x2 as u8]);
        first.extend([(y1 >> 4) as u8, ((y1 & 15) << 4) as u8 | (y2 >> 8) as u8, y2 as u8, 6]);
        first.extend(o0.to_be_bytes());
        first.extend(o1.to_be_bytes());
        first.push(0xff);
        let second = ctl + 4 + first.len() as u16;
        v.extend(self.start.to_be_bytes());
        v.extend(if self.stop.is_some() { second } else { ctl }.to_be_bytes());
        v.extend(first);
        if let Some(stop) = self.stop {
            v.extend(stop.to_be_bytes());
            v.extend(second.to_be_bytes());
            v.extend(&self.more);
            v.extend([2, 0xff]);
        }
        let n = v.len() as u16;
        v[0..2].copy_from_slice(&n.to_be_bytes());
        v
    }
}
/// 4x2 at (10,20): first row 1 1 2 2, second row 3 3 3 3
pub fn small() -> Spu {
    Spu {
        x: (10, 13),
        y: (20, 21),
        pal: 0x3210,
        alpha: 0xfff0,
        start: 0,
        stop: Some(100),
        field0: vec![0b1001_1010],
        field1: vec![0b0001_0000 | 0b0011, 0],
        more: vec![],
        share: 0,
    }
    .fixed()
}
impl Spu {
    fn fixed(mut self) -> Self {
        // 3 3 3 3 as one two-nibble run: 00 0100 11
        self.field1 = vec![0b0001_0011];
        self
    }
}
pub fn clock(tag: u8, t: u64) -> [u8; 5] {
    [
        tag << 4 | ((t >> 29) as u8 & 0x0e) | 1,
        (t >> 22) as u8,
        (t >> 14) as u8 | 1,
        (t >> 7) as u8,
        ((t << 1) as u8) | 1,
    ]
}
pub fn pack(pts: Option<u64>, stream: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 0, 1, 0xba, 0x44, 0, 4, 0, 4, 1, 1, 0x89, 0xc3, 0xf8];
    v.extend([0, 0, 1, 0xbd]);
    let mut p = vec![0x81];
    match pts {
        Some(t) => {
            p.extend([0x80, 5]);
            p.extend(clock(2, t));
        }
        None => p.extend([0, 0]),
    }
    p.push(stream);
    p.extend(payload);
    v.extend((p.len() as u16).to_be_bytes());
    v.extend(p);
    v
}
/// The subtitle in packets of at most `max` bytes.
pub fn packs(pts: u64, stream: u8, spu: &[u8], max: usize) -> Vec<Vec<u8>> {
    spu.chunks(max).enumerate().map(|(i, c)| pack((i == 0).then_some(pts), stream, c)).collect()
}
pub fn scratch(name: &str) -> std::path::PathBuf {
    let p = std::env::current_dir().unwrap().join(name);
    std::fs::create_dir_all(&p).unwrap();
    p
}
