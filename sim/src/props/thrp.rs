//! C17: jobs on several threads or interleaved on one, none of which may notice the others.

use super::filep::{draw_set, dump, same_image, Set};
use super::pgsp::{class_err, expect_end, expect_pair, hard_plan, items, legal_fs, name, render_checks, Got, Items};
use super::textp::{check_index, draw_idx, draw_span, draw_text, expected, first_diff, produce, Form, Idx};
use super::vobp;
use crate::io::{pick_cap, Plan, Seen, SimReader, SimWriter, WPlan, ERROR_KINDS};
use crate::pgs::{self, Stream};
use crate::sched;
use crate::sys::fs;
use crate::tape;
use crate::vob::{self, Vob};
use crate::world::{compared, ev, lib, probe, Ev, Planned};
use image::DynamicImage;
use std::cell::Cell;
use std::fs::File;
use std::io::{self, BufReader};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, RleEncodedImage, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{Index, Sub, VobSubError, VobSubIndexedImage};

/// The scheduler lets one thread run at a time, so jobs may visit any of them.
struct Anywhere<T>(T);
unsafe impl<T> Send for Anywhere<T> {}
unsafe impl<T> Sync for Anywhere<T> {}
impl<T> Anywhere<T> {
    fn get(self) -> T {
        self.0
    }
}

/// A job makes one step and says whether it wants more.
type Job = Box<dyn FnMut() -> bool>;

fn keep<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}
/// Inputs and results several jobs may share.
struct World {
    pgs: Vec<Arc<Stream>>,
    vob: Vec<(&'static Vob, &'static Sub)>,
    img: Vec<(&'static Stream, usize, &'static RleEncodedImage)>,
    vimg: Vec<(&'static Vob, usize, &'static VobSubIndexedImage)>,
    idx: Vec<&'static Idx>,
}

fn draw_world() -> World {
    let mut w = World { pgs: Vec::new(), vob: Vec::new(), img: Vec::new(), vimg: Vec::new(), idx: Vec::new() };
    for k in 0..tape::urange(1, 3) {
        let mut sh = pgs::Shape::draw();
        sh.huge = 0;
        sh.skip_max = sh.skip_max.min(400);
        let st = pgs::stream(tape::urange(1, 4), &sh);
        std::fs::write(format!("s/in{k}.sup"), &st.bytes).expect("input");
        w.pgs.push(Arc::new(st));
    }
    for k in 0..tape::urange(1, 2) {
        let mut sh = vob::Shape::draw();
        sh.big = 0;
        sh.full = false;
        let v = keep(vob::stream(tape::urange(1, 4), &sh));
        std::fs::write(format!("s/in{k}.sub"), &v.bytes).expect("input");
        let r = Sub::open(format!("s/in{k}.sub"));
        match r {
            Ok(s) => w.vob.push((v, keep(s))),
            Err(e) => fail!("open-failed", "{e:?}"),
        }
    }
    w
}
/// Images and index files the jobs share; made before the threads start.
fn warm_up(w: &mut World) {
    if tape::chance(1, 2) {
        let st = keep(Stream::clone(&w.pgs[0]));
        let mut it = super::pgsp::Images(SupParser::new(std::io::Cursor::new(st.bytes.as_slice())));
        for i in 0..st.pairs.len() {
            let g = it.step();
            expect_pair("before the threads", st, i, true, true, &g);
            if let Got::Image(_, im) = g {
                w.img.push((st, i, keep(im)));
            }
        }
        let (v, s) = w.vob[0];
        let mut it = lib(|| s.subtitles::<(TimeSpan, VobSubIndexedImage)>());
        for (i, u) in v.subs.iter().enumerate() {
            let g = vobp::step(&mut it);
            vobp::expect_sub("before the threads", i, u, &g);
            if let Some(Ok((_, im))) = g {
                w.vimg.push((v, i, keep(im)));
            }
        }
    }
    for _ in 0..tape::urange(1, 2) {
        let x = keep(draw_idx(false));
        std::fs::write(format!("s/in{}.idx", w.idx.len()), &x.bytes).expect("input");
        w.idx.push(x);
    }
}

fn walk_pgs(mut it: Box<dyn Items>, st: Arc<Stream>, image: bool, seen: Option<&'static mut Seen>, what: &'static str) -> Job {
    let mut i = 0;
    Box::new(move || {
        let before = seen.as_ref().map_or(0, |s| s.hard_errors);
        let g = it.step();
        if seen.as_ref().map_or(0, |s| s.hard_errors) > before {
            if !class_err(&g) {
                fail!("hidden-failure", "{what}: the reader failed, but the item is {}", name(&g));
            }
            probe(Ev::PErrReported);
            return false;
        }
        if i < st.pairs.len() {
            expect_pair(what, &st, i, image, true, &g);
            i += 1;
            true
        } else {
            expect_end(what, &g);
            probe(Ev::PEndReached);
            false
        }
    })
}
fn pgs_job(w: &World) -> Job {
    let k = tape::urange(0, w.pgs.len() - 1);
    let st = w.pgs[k].clone();
    let image = tape::chance(2, 3);
    let plan = if tape::chance(1, 4) { hard_plan(&st) } else { Plan::legal() };
    let (r, seen) = SimReader::new(st.bytes.clone(), plan);
    if tape::chance(1, 2) {
        walk_pgs(items(r, image), st, image, Some(seen), "reader job")
    } else {
        let r = BufReader::with_capacity(pick_cap(), r);
        walk_pgs(items(r, image), st, image, Some(seen), "buffered job")
    }
}
fn pgs_file_job(w: &World) -> Job {
    let k = tape::urange(0, w.pgs.len() - 1);
    let st = w.pgs[k].clone();
    let image = tape::chance(2, 3);
    let mut walk: Option<Job> = None;
    Box::new(move || {
        if let Some(w) = &mut walk {
            return w();
        }
        let path = format!("s/in{k}.sup");
        let it: Box<dyn Items> = if image {
            match lib(|| SupParser::<BufReader<File>, DecodeTimeImage>::from_file(&path)) {
                Ok(p) => Box::new(super::pgsp::Images(p)),
                Err(e) => fail!("open-failed", "{path}: {e:?}"),
            }
        } else {
            match lib(|| SupParser::<BufReader<File>, DecodeTimeOnly>::from_file(&path)) {
                Ok(p) => Box::new(super::pgsp::Times(p)),
                Err(e) => fail!("open-failed", "{path}: {e:?}"),
            }
        };
        walk = Some(walk_pgs(it, st.clone(), image, None, "file job"));
        true
    })
}
fn vob_job(w: &World) -> Job {
    let k = tape::urange(0, w.vob.len() - 1);
    let (v, shared) = w.vob[k];
    let own = tape::chance(1, 3);
    let draw = tape::chance(1, 2);
    let mut it: Option<Box<dyn Iterator<Item = Result<(TimeSpan, VobSubIndexedImage), VobSubError>>>> = None;
    let mut i = 0;
    Box::new(move || {
        let Some(it) = &mut it else {
            let s: &'static Sub = if own {
                match lib(|| Sub::open(format!("s/in{k}.sub"))) {
                    Ok(s) => keep(s),
                    Err(e) => fail!("open-failed", "{e:?}"),
                }
            } else {
                shared
            };
            it = Some(Box::new(lib(|| s.subtitles::<(TimeSpan, VobSubIndexedImage)>())));
            return true;
        };
        let g = vobp::step(it);
        if i < v.subs.len() {
            vobp::expect_sub("VobSub job", i, &v.subs[i], &g);
            if let (true, Some(Ok((_, im)))) = (draw, &g) {
                vobp::render(i, &v.subs[i], im);
            }
            i += 1;
            true
        } else {
            if g.is_some() {
                fail!("not-ended", "VobSub job: expected the end, got {}", vobp::name(&g));
            }
            probe(Ev::PEndReached);
            false
        }
    })
}
fn index_job(w: &World) -> Job {
    let mut rounds = tape::urange(1, 3);
    if tape::chance(1, 3) {
        let k = tape::urange(0, w.idx.len() - 1);
        let x = w.idx[k];
        return Box::new(move || {
            let r = lib(|| Index::open(format!("s/in{k}.idx")));
            check_index("index file job", x, &r);
            rounds -= 1;
            rounds > 0
        });
    }
    let bad = tape::chance(1, 4);
    let own = tape::chance(1, 2);
    let x: &'static Idx = if own { keep(draw_idx(bad)) } else { w.idx[0] };
    Box::new(move || {
        let mut plan = Plan::legal();
        if tape::chance(1, 5) {
            plan.kind = tape::pick(ERROR_KINDS);
            plan.fail_pos = tape::urange(0, x.bytes.len()) as u64;
            plan.fail_times = u32::MAX;
        }
        let kind = plan.kind;
        let (r, seen) = SimReader::new(x.bytes.clone(), plan);
        let mkerr = |source| {
            crate::world::callback();
            VobSubError::Io { source, path: "job".into() }
        };
        let res = lib(|| Index::read_index(BufReader::with_capacity(pick_cap(), r), &mkerr));
        if seen.hard_errors > 0 {
            match &res {
                Err(VobSubError::Io { source, .. }) if source.kind() == kind => compared(1),
                Ok(_) => fail!("hidden-failure", "the reader of an index job failed, but it returned an index"),
                Err(e) => fail!("wrong-cause", "an index job's reader failed with {kind:?}, it returned {e:?}"),
            }
        } else {
            check_index("index job", x, &res);
        }
        rounds -= 1;
        rounds > 0
    })
}
fn text_job() -> Job {
    let form = [Form::Srt, Form::SrtLine, Form::Vtt][tape::below(3) as usize];
    let mut b = tape::bulk();
    let subs: Vec<_> = (0..tape::urange(1, 4)).map(|_| (draw_span(), draw_text(&mut b))).collect();
    let base = tape::urange(1, 200);
    let want = expected(form, &subs, base);
    let mut plan = WPlan::CALM;
    plan.short = tape::range(0, 10);
    plan.eintr = tape::range(0, 4);
    if tape::chance(1, 4) {
        plan.limit = tape::range(0, want.len() as u64);
    }
    Box::new(move || {
        let mut w = SimWriter::new(plan);
        let r: io::Result<()> = lib(|| produce(&mut w, form, &subs, base));
        match r {
            Ok(()) if w.failed > 0 => fail!("hidden-failure", "text job: the writer failed, but success was returned"),
            Ok(()) if w.got != want.as_bytes() => fail!("wrong-text", "text job: output differs {}", first_diff(&w.got, want.as_bytes())),
            Err(e) if w.failed == 0 => fail!("spurious-error", "text job: {e:?}"),
            Err(_) if !want.as_bytes().starts_with(&w.got) => fail!("not-a-prefix", "text job: {}", first_diff(&w.got, want.as_bytes())),
            _ => compared(1),
        }
        false
    })
}
fn dump_job(id: usize) -> Job {
    let (set, want): (Set, Vec<DynamicImage>) = draw_set(tape::urange(1, 3));
    // the parents are shared and do not exist yet
    let path = format!("s/{}/{id}", tape::pick(&["d", "d/e"]));
    let mut rounds = tape::urange(1, 2);
    Box::new(move || {
        let owned = tape::chance(1, 2);
        if let Err(e) = lib(|| dump(&path, &set, owned)) {
            fail!("spurious-error", "dump job: {e:?}");
        }
        for (i, x) in want.iter().enumerate() {
            if let Err(why) = same_image(&std::path::Path::new(&path).join(format!("{i:06}.png")), x) {
                fail!("damaged-image", "dump job {id}: {why}");
            }
            compared(1);
        }
        rounds -= 1;
        rounds > 0
    })
}
fn render_job(w: &World) -> Job {
    let mut rounds = tape::urange(1, 4);
    let img: Vec<_> = w.img.clone();
    let vimg: Vec<_> = w.vimg.clone();
    Box::new(move || {
        if !vimg.is_empty() && tape::chance(1, 2) {
            let (v, i, im) = vimg[tape::urange(0, vimg.len() - 1)];
            vobp::render(i, &v.subs[i], im);
        } else if !img.is_empty() {
            let (st, i, im) = img[tape::urange(0, img.len() - 1)];
            render_checks(i, st.pairs[i].img.as_ref().expect("image"), im);
        }
        rounds -= 1;
        rounds > 0
    })
}
fn draw_job(w: &World, id: usize, favourite: usize) -> Job {
    let kind = if tape::chance(1, 2) { favourite } else { tape::weighted(&[4, 2, 4, 4, 2, 2, 2]) };
    match kind {
        0 => pgs_job(w),
        1 => pgs_file_job(w),
        2 => vob_job(w),
        3 => index_job(w),
        4 => text_job(),
        5 => dump_job(id),
        _ => render_job(w),
    }
}

/// The jobs nobody is stepping at the moment.
struct Pool {
    jobs: Vec<Option<Job>>,
    out: usize,
}
impl Pool {
    fn ready(&self) -> Vec<usize> {
        (0..self.jobs.len()).filter(|i| self.jobs[*i].is_some()).collect()
    }
}
type Shared<T> = &'static Anywhere<std::cell::UnsafeCell<T>>;
fn share<T>(v: T) -> Shared<T> {
    keep(Anywhere(std::cell::UnsafeCell::new(v)))
}
/// Steps any job that is not being stepped; false if there is none.
fn step_any(pool: Shared<Pool>) -> bool {
    let at = || unsafe { &mut *pool.0.get() };
    let ready = at().ready();
    if ready.is_empty() {
        return false;
    }
    let k = tape::pick(&ready);
    let mut j = at().jobs[k].take().expect("job");
    at().out += 1;
    ev(Ev::Interleave, k as u64, 0);
    let more = j();
    at().out -= 1;
    if more {
        at().jobs[k] = Some(j);
    }
    true
}

thread_local! {
    /// callbacks until the planned panic (0: none planned)
    static ARMED: Cell<u64> = const { Cell::new(0) };
    static DEEP: Cell<u32> = const { Cell::new(0) };
}
static mut GUESTS: Option<Shared<Pool>> = None;
static mut NEST_OF: u64 = 0;

/// What every callback of the simulator does in this property: now and then it panics, or uses
/// the library itself by stepping another job.
fn trouble() {
    let a = ARMED.with(Cell::get);
    if a > 0 {
        ARMED.with(|c| c.set(a - 1));
        if a == 1 {
            ev(Ev::CbPanic, 0, 0);
            std::panic::panic_any(Planned);
        }
    }
    let of = unsafe { NEST_OF };
    if of == 0 || DEEP.with(Cell::get) >= 2 || !tape::chance(1, of) {
        return;
    }
    if let Some(g) = unsafe { GUESTS } {
        // the planned panic is the outer job's own
        let a = ARMED.with(|c| c.replace(0));
        DEEP.with(|c| c.set(c.get() + 1));
        if step_any(g) {
            ev(Ev::Nest, 0, 0);
        } else {
            unsafe { NEST_OF = 0 }
        }
        DEEP.with(|c| c.set(c.get() - 1));
        ARMED.with(|c| c.set(a));
    }
}
/// A job one of whose callbacks panics; the caller catches that and drops what it was using.
fn fragile(mut job: Job) -> Job {
    let mut left = tape::edgy(1, 400, &[]);
    Box::new(move || {
        ARMED.with(|c| c.set(left));
        let r = catch_unwind(AssertUnwindSafe(&mut job));
        left = ARMED.with(|c| c.replace(0));
        match r {
            Ok(more) => more,
            Err(p) if p.is::<Planned>() => false,
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

pub fn c17() {
    let mut w = draw_world();
    warm_up(&mut w);
    let n = tape::urange(2, 7);
    let favourite = tape::weighted(&[3, 1, 3, 4, 1, 2, 1]);
    let frail = tape::pick(&[0u64, 0, 1, 4]);
    let job = |i| {
        let j = draw_job(&w, i, favourite);
        if tape::chance(frail, 8) {
            fragile(j)
        } else {
            j
        }
    };
    let jobs: Vec<Job> = (0..n).map(job).collect();
    let nest = tape::pick(&[0u64, 0, 0, 3, 12, 60]);
    if nest > 0 {
        let g = (0..tape::urange(1, 3)).map(|i| Some(job(n + i))).collect();
        unsafe {
            GUESTS = Some(share(Pool { jobs: g, out: 0 }));
            NEST_OF = nest;
        }
    }
    legal_fs();
    fs().mkdir_race = tape::chance(1, 4);
    let style = tape::weighted(&[5, 3, 2]);
    note!("  {n} jobs, favourite {favourite}, style {style}, frail {frail}, nest {nest}");
    crate::world::set_callback(if frail > 0 || nest > 0 { Some(trouble) } else { None });
    let mut work: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let gap = tape::pick(&[3u64, 1, 10, 40, 200]);
    match style {
        // a thread per job
        0 => {
            for j in jobs {
                let j = Anywhere(j);
                work.push(Box::new(move || {
                    let mut j = j.get();
                    while j() {}
                    drop(j);
                }));
            }
        }
        // fewer threads than jobs, the jobs move between them; or one thread, one step of each
        // in any order
        _ => {
            let m = if style == 1 { tape::urange(1, 3) } else { 1 };
            let pool = share(Pool { jobs: jobs.into_iter().map(Some).collect(), out: 0 });
            for _ in 0..m {
                work.push(Box::new(move || loop {
                    if step_any(pool) {
                        sched::yield_point(20);
                    } else if unsafe { &*pool.0.get() }.out == 0 {
                        return;
                    } else {
                        sched::yield_now();
                    }
                }));
            }
        }
    }
    // Whatever the others left behind must not disturb what runs after them.
    if let Some(g) = unsafe { GUESTS } {
        work.push(Box::new(move || while step_any(g) {}));
    }
    start(work, gap);
    crate::world::set_callback(None);
    if tape::chance(1, 4) {
        note!("  afterwards");
        let j = draw_job(&w, 20, favourite);
        let j = Anywhere(j);
        start(
            vec![Box::new(move || {
                let mut j = j.get();
                while j() {}
            })],
            200,
        );
    }
    fs().active = false;
}
fn start(work: Vec<Box<dyn FnOnce() + Send>>, gap: u64) {
    let yields = tape::chance(1, 2);
    crate::sys::alloc_yield(yields);
    // Preemption at any branch or memory access of the library (finely instrumented build only).
    let fine = tape::pick(&[0u64, 30, 200, 1000, 6000]);
    sched::run_threads(work, gap, 5000, fine);
    crate::sys::alloc_yield(false);
}
