//! C22: subtitles that are whole on the disk but can't be decoded.

use super::pgsp::{expect_end, expect_pair, name as pgs_name, through, Got, Items};
use super::vobp::{expect_sub, name, open_bytes, show, step};
use crate::pgs::{self, Broken};
use crate::tape;
use crate::vob;
use crate::world::{compared, lib, probe, Ev};
use subtile::time::TimeSpan;
use subtile::vobsub::VobSubIndexedImage;

pub fn c22() {
    if tape::chance(1, 2) {
        pgs_side();
    } else {
        vob_side();
    }
}

fn pgs_side() {
    let mut sh = pgs::Shape::draw();
    sh.broken = tape::pick(&[8, 3, 14]);
    sh.skip_max = sh.skip_max.min(300);
    let st = pgs::stream(tape::urange(1, 5), &sh);
    let image = !tape::chance(1, 6);
    through(&st, image, &mut |what: &str, it: &mut dyn Items| {
        // errors already taken and still allowed for the subtitles passed over
        let (mut taken, mut least, mut most) = (0usize, 0usize, 0usize);
        for i in 0..st.pairs.len() {
            let p = &st.pairs[i];
            match (image, p.broken, &p.img) {
                (true, Some(b), _) => {
                    least += 1;
                    most += if b == Broken::HalfObject { 1 } else { 2 };
                    continue;
                }
                (true, None, None) => {
                    least += 1;
                    most += 1;
                    continue;
                }
                _ => {}
            }
            let g = errors(it, most, &mut taken);
            if taken < least {
                crate::fail!("hidden-failure", "{what}: {least} subtitles before subtitle {i} can't be decoded, but only {taken} errors came, then {}", pgs_name(&g));
            }
            expect_pair(what, &st, i, image, true, &g);
            (taken, least, most) = (0, 0, 0);
        }
        let g = errors(it, most, &mut taken);
        if taken < least {
            crate::fail!("hidden-failure", "{what}: the last {least} subtitles can't be decoded, but only {taken} errors came, then {}", pgs_name(&g));
        }
        expect_end(what, &g);
        expect_end(what, &it.step());
    });
}
/// Takes up to `most` errors; the first other item.
fn errors(it: &mut dyn Items, most: usize, taken: &mut usize) -> Got {
    loop {
        let g = it.step();
        if !matches!(g, Got::Err(..) | Got::Missing) || *taken == most {
            return g;
        }
        *taken += 1;
        compared(1);
        probe(Ev::PErrReported);
    }
}

fn vob_side() {
    let mut sh = vob::Shape::draw();
    sh.broken = tape::pick(&[8, 3, 14]);
    let v = vob::stream(tape::urange(1, 5), &sh);
    let sub = open_bytes(&v.bytes);
    let mut it = lib(|| sub.subtitles::<(TimeSpan, VobSubIndexedImage)>());
    for (i, u) in v.subs.iter().enumerate() {
        let g = step(&mut it);
        let Some(b) = u.broken else {
            expect_sub("beside undecodable subtitles", i, u, &g);
            continue;
        };
        // one that can't be told to belong to a subtitle costs an error per packet
        let packets = v.packs.iter().filter(|p| p.sub == Some(i)).count();
        let most = if matches!(b, vob::Broken::NoPts | vob::Broken::Tiny) { packets } else { 1 };
        let mut g = g;
        for k in 0..most {
            match &g {
                Some(Err(e)) => {
                    let _ = show(e);
                    compared(1);
                    probe(Ev::PErrReported);
                }
                g => crate::fail!("hidden-failure", "subtitle {i} can't be decoded ({b:?}), but comes out as {}", name(g)),
            }
            if k + 1 < most {
                g = step(&mut it);
            }
        }
    }
    for _ in 0..2 {
        let g = step(&mut it);
        if g.is_some() {
            crate::fail!("not-ended", "expected the end, got {}", name(&g));
        }
    }
}
