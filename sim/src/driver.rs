//! Runs batches of simulated executions, minimises failures, replays them, writes evidence.
//!
//! One run = one forked process with a fresh image of the library (first-use state included)
//! and a private scratch folder; its seed is a pure function of (VERIF_SEED, property, index).

use crate::props::{Prop, PROPS};
use crate::sys;
use crate::tape;
use crate::world::{self, guard, map_bytes, map_shared, set_shared, sh, Ev, Shared, EV_NAMES, NCOUNT, TAPE_CAP};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Held,
    Violation(String),
    Harness(String),
}

struct Sink;
static SINK: Sink = Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        world::outside(|| crate::sched::yield_point(11));
        struct Count(usize);
        impl std::fmt::Write for Count {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut c = Count(0);
        let _ = c.write_fmt(*r.args());
        world::ev(Ev::LogRec, c.0 as u64, 0);
    }
    fn flush(&self) {}
}

fn limits(hang_secs: i64) {
    unsafe {
        let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
        let it = libc::itimerval { it_interval: z, it_value: libc::timeval { tv_sec: hang_secs, tv_usec: 0 } };
        // setitimer(ITIMER_PROF): processor time, so a loaded machine raises no alarm.
        sys::raw6(libc::SYS_setitimer, 2, &it as *const _ as usize, 0, 0, 0, 0);
        libc::alarm(150);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

/// The body of a run, in its own process; never returns.
fn child(p: &Prop, hang_secs: i64) -> ! {
    limits(hang_secs);
    if sh().verbose == 0 {
        unsafe {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 2);
        }
    }
    world::install_panic_hook();
    sys::fresh_scratch();
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Off);
    if p.logging && tape::chance(1, 12) {
        world::probe(Ev::LoggerOn);
        log::set_max_level(log::LevelFilter::Trace);
    }
    guard(p.run);
    let s = sh();
    if s.outcome == 0 {
        s.outcome = 1;
    }
    sys::raw_exit(0)
}

/// Forks one run and waits for it. The shared block must have been prepared.
fn execute(p: &Prop, hang_secs: i64) -> Res {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child(p, hang_secs);
    }
    if pid < 0 {
        return Res::Harness("fork failed".into());
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let s = sh();
    let set = |class: &str, msg: &str| {
        let s = sh();
        let k = class.len().min(256);
        s.class[..k].copy_from_slice(&class.as_bytes()[..k]);
        s.class_len = k as u64;
        let k = msg.len().min(8192);
        s.msg[..k].copy_from_slice(&msg.as_bytes()[..k]);
        s.msg_len = k as u64;
        Res::Violation(class.to_owned())
    };
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        return match sig {
            libc::SIGPROF => set("hang", "the run used up its processor time without finishing"),
            libc::SIGALRM => set("blocked", "the run stopped making progress"),
            libc::SIGKILL => Res::Harness("the run was killed from outside".into()),
            _ => set(&format!("signal-{sig}"), "the run was ended by a fatal signal"),
        };
    }
    let code = libc::WEXITSTATUS(st);
    match (code, s.outcome) {
        (0, 1) => Res::Held,
        (41, 2) => Res::Violation(s.class_str()),
        (42, 3) => Res::Harness(s.msg_str()),
        _ => set("process-exit", &format!("the process ended with code {code} in the middle of the run")),
    }
}

pub fn run_seed(seed: u64, pid: &str, idx: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in pid.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    tape::mix(tape::mix(seed, h), idx)
}
fn run_index(p: &Prop, seed: u64, idx: u64) -> Res {
    let s = sh();
    s.reset();
    s.prng = run_seed(seed, p.id, idx);
    execute(p, 20)
}
fn run_tape(p: &Prop, t: &[u64], hang: i64) -> Res {
    let s = sh();
    s.reset();
    s.mode = 1;
    s.replay[..t.len()].copy_from_slice(t);
    s.replay_len = t.len() as u64;
    execute(p, hang)
}

#[repr(C)]
struct Batch {
    next: AtomicU64,
    min_bad: AtomicU64,
    harness: AtomicU64,
    stop: AtomicU64,
    soft: AtomicU64,
}
#[repr(C)]
struct Totals {
    runs: u64,
    compared: u64,
    media_ms: u64,
    events: u64,
    tape: u64,
    overflow: u64,
    faulty_runs: u64,
    counters: [u64; NCOUNT],
    runs_with: [u64; NCOUNT],
    hmsg: [u8; 512],
    hmsg_len: u64,
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() && std::fs::create_dir(shm.join(format!("simcheck.{}", std::process::id()))).is_ok() {
        shm.join(format!("simcheck.{}", std::process::id()))
    } else {
        let t = std::env::temp_dir().join(format!("simcheck.{}", std::process::id()));
        std::fs::create_dir_all(&t).expect("scratch folder");
        t
    };
    base
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn enter(base: &Path, name: &str) {
    let d = base.join(name);
    std::fs::create_dir_all(&d).expect("scratch folder");
    std::env::set_current_dir(&d).expect("scratch folder");
}

struct Arrays {
    hash: *mut u64,
    class: *mut u64,
    flag: *mut u8,
}

/// Runs indices of `list` (or 0..n) on all processors.
#[allow(clippy::too_many_arguments)]
fn batch(p: &Prop, seed: u64, n: u64, list: Option<&[u64]>, workers: usize, cap_s: u64, arr: &Arrays, base: &Path, t0: Instant) -> (Vec<Totals>, &'static Batch) {
    let b: &'static Batch = unsafe { &*map_bytes(std::mem::size_of::<Batch>()).cast() };
    b.min_bad.store(u64::MAX, SeqCst);
    let tot = map_bytes(std::mem::size_of::<Totals>() * workers).cast::<Totals>();
    let mut pids = Vec::new();
    let me = std::process::id();
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("cannot fork");
            std::process::exit(2);
        }
        if pid > 0 {
            pids.push(pid);
            continue;
        }
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        if unsafe { libc::getppid() } as u32 != me {
            sys::raw_exit(0);
        }
        set_shared(map_shared());
        enter(base, &format!("w{w}"));
        let t = unsafe { &mut *tot.add(w) };
        loop {
            if b.stop.load(SeqCst) != 0 || b.harness.load(SeqCst) != 0 {
                break;
            }
            let k = b.next.fetch_add(1, SeqCst);
            if k >= n || k > b.min_bad.load(SeqCst) {
                break;
            }
            if k % 16 == 0 && t0.elapsed().as_secs() >= cap_s {
                b.stop.store(1, SeqCst);
                break;
            }
            let idx = list.map_or(k, |l| l[k as usize]);
            let mut r = run_index(p, seed, idx);
            if matches!(&r, Res::Violation(c) if c == "hang" || c == "blocked") {
                // Only believed when it happens again.
                b.soft.fetch_add(1, SeqCst);
                r = run_index(p, seed, idx);
            }
            let s = sh();
            unsafe {
                *arr.hash.add(idx as usize) = s.hash;
                let faults = s.faults();
                *arr.flag.add(idx as usize) = 1 | if faults > 0 && s.compared > 0 { 2 } else { 0 } | if r == Res::Held { 0 } else { 4 };
                *arr.class.add(idx as usize) = s.events;
            }
            t.runs += 1;
            t.compared += s.compared;
            t.media_ms += s.media_ms;
            t.events += s.events;
            t.tape += s.rec_len;
            t.overflow += u64::from(s.rec_overflow > 0);
            t.faulty_runs += u64::from(s.faults() > 0);
            for i in 0..NCOUNT {
                t.counters[i] += s.counters[i];
                t.runs_with[i] += u64::from(s.counters[i] > 0);
            }
            match r {
                Res::Held => {}
                Res::Violation(_) => {
                    b.min_bad.fetch_min(k, SeqCst);
                }
                Res::Harness(m) => {
                    let m = format!("run {idx}: {m}");
                    let k = m.len().min(512);
                    t.hmsg[..k].copy_from_slice(&m.as_bytes()[..k]);
                    t.hmsg_len = k as u64;
                    b.harness.store(1, SeqCst);
                }
            }
        }
        sys::raw_exit(0);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 {
            b.harness.store(2, SeqCst);
        }
    }
    let v = (0..workers).map(|w| unsafe { std::ptr::read(tot.add(w)) }).collect();
    (v, b)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn rec_tape() -> Vec<u64> {
    let s = sh();
    let mut v = s.rec[..(s.rec_len as usize).min(TAPE_CAP)].to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Minimises a failing tape; every accepted candidate fails with the same class.
fn shrink(p: &Prop, class: &str, start: Vec<u64>, budget: u32, wall_s: u64, hang: i64) -> (Vec<u64>, u32) {
    let mut best = start;
    let mut used = 0u32;
    let t0 = Instant::now();
    let attempt = |cand: Vec<u64>, best: &mut Vec<u64>, used: &mut u32| -> bool {
        if *used >= budget || t0.elapsed().as_secs() >= wall_s {
            return false;
        }
        *used += 1;
        if run_tape(p, &cand, hang) == Res::Violation(class.to_owned()) {
            let s = sh();
            // what was really drawn is the normal form, unless it is longer
            let r = if s.rec_overflow == 0 { rec_tape() } else { cand.clone() };
            let cost = |v: &[u64]| (v.len(), v.iter().fold(0u128, |a, x| a + u128::from(*x)));
            let pickd = if cost(&r) <= cost(&cand) { r } else { cand };
            if cost(&pickd) < cost(best) {
                *best = pickd;
                return true;
            }
        }
        false
    };
    loop {
        let before = (best.len(), best.clone());
        // shorter tails
        let mut cut = best.len() / 2;
        while cut >= 1 {
            if best.len() > cut {
                let c = best[..best.len() - cut].to_vec();
                if attempt(c, &mut best, &mut used) {
                    continue;
                }
            }
            cut /= 2;
        }
        // drop blocks
        let mut size = (best.len() / 4).clamp(1, 256);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if !attempt(c, &mut best, &mut used) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = 32usize.min(best.len().max(1));
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt(c, &mut best, &mut used);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            while i < best.len() && best[i] > lo + 1 {
                let mut c = best.clone();
                let mid = lo + (c[i] - lo) / 2;
                c[i] = mid;
                if !attempt(c, &mut best, &mut used) {
                    lo = mid;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(c, &mut best, &mut used);
            }
            i += 1;
        }
        if (best.len(), best.clone()) == before || used >= budget || t0.elapsed().as_secs() >= wall_s {
            break;
        }
    }
    (best, used)
}

/// Runs verbosely, with the trace collected from a temporary file.
fn traced(p: &Prop, prep: &dyn Fn()) -> (Res, String) {
    let path = "trace.txt\0";
    let fd = unsafe { libc::open(path.as_ptr().cast(), libc::O_CREAT | libc::O_TRUNC | libc::O_RDWR, 0o644) };
    prep();
    let s = sh();
    s.verbose = 1;
    s.trace_fd = i64::from(fd);
    let r = execute(p, 20);
    s.verbose = 0;
    unsafe { libc::close(fd) };
    let t = String::from_utf8_lossy(&std::fs::read("trace.txt").unwrap_or_default()).into_owned();
    (r, t)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("SIMCHECK_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn short_trace(t: &str, max: usize) -> String {
    let l: Vec<&str> = t.lines().collect();
    if l.len() <= max {
        return t.to_owned();
    }
    let mut o = l[..max / 2].join("\n");
    let _ = write!(o, "\n... {} lines ...\n", l.len() - max);
    o.push_str(&l[l.len() - max / 2..].join("\n"));
    o.push('\n');
    o
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let p = find(id);
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = tier == "thorough";
    let n = env_u64("SIMCHECK_RUNS", if thorough { p.quick * p.factor } else { p.quick });
    let cap = env_u64("SIMCHECK_CAP_S", if thorough { 700 } else { 240 });
    let workers = env_u64("SIMCHECK_WORKERS", std::thread::available_parallelism().map_or(4, |x| x.get() as u64)) as usize;
    println!("simcheck {id} tier={tier} seed={seed} runs={n} workers={workers}");
    let dir = verif_dir();
    let scratch = Scratch(scratch_base());
    let arr = Arrays {
        hash: map_bytes(n as usize * 8 + 8).cast(),
        class: map_bytes(n as usize * 8 + 8).cast(),
        flag: map_bytes(n as usize + 8),
    };
    let (tot, b) = batch(p, seed, n, None, workers, cap, &arr, &scratch.0, t0);
    let main_s = t0.elapsed().as_secs_f64();
    set_shared(map_shared());
    enter(&scratch.0, "main");
    if b.harness.load(SeqCst) != 0 {
        for t in &tot {
            if t.hmsg_len > 0 {
                eprintln!("HARNESS ERROR {}", String::from_utf8_lossy(&t.hmsg[..t.hmsg_len as usize]));
            }
        }
        if b.harness.load(SeqCst) == 2 {
            eprintln!("HARNESS ERROR a worker died");
        }
        return 2;
    }
    let sum = |f: &dyn Fn(&Totals) -> u64| tot.iter().map(f).sum::<u64>();
    let runs = sum(&|t| t.runs);
    // determinism: a sample again, spread differently over the workers
    let mut again: Vec<u64> = Vec::new();
    let bad = b.min_bad.load(SeqCst);
    let done = n.min(bad);
    let step = (done / 60).max(1);
    let mut k = 0;
    while k < done && again.len() < 64 {
        if unsafe { *arr.flag.add(k as usize) } & 1 == 1 {
            again.push(k);
        }
        k += step;
    }
    let arr2 = Arrays {
        hash: map_bytes(n as usize * 8 + 8).cast(),
        class: map_bytes(n as usize * 8 + 8).cast(),
        flag: map_bytes(n as usize + 8),
    };
    let mut redone = 0;
    let mut mismatch = Vec::new();
    if bad == u64::MAX && !again.is_empty() {
        let _ = batch(p, seed, again.len() as u64, Some(&again), workers.div_ceil(2), cap + 60, &arr2, &scratch.0, t0);
        for i in &again {
            unsafe {
                if *arr2.flag.add(*i as usize) & 1 == 0 {
                    continue;
                }
                redone += 1;
                if *arr.hash.add(*i as usize) != *arr2.hash.add(*i as usize) || *arr.flag.add(*i as usize) != *arr2.flag.add(*i as usize) {
                    mismatch.push(*i);
                }
            }
        }
    }
    set_shared(map_shared());
    enter(&scratch.0, "main");
    // distinct, non-trivial event logs
    let mut logs = std::collections::BTreeSet::new();
    let mut nontrivial = 0u64;
    for i in 0..n as usize {
        unsafe {
            if *arr.flag.add(i) & 3 == 3 {
                nontrivial += 1;
                logs.insert(*arr.hash.add(i));
            }
        }
    }
    // one sample written out
    let mut samples = Vec::new();
    let mut k = 0u64;
    while samples.len() < 2 && k < done.min(4000) {
        let f = unsafe { *arr.flag.add(k as usize) };
        let evs = unsafe { *arr.class.add(k as usize) };
        if f == 3 && evs > 5 && (evs < 400 || k > 500) {
            let (_, t) = traced(p, &|| {
                let s = sh();
                s.reset();
                s.prng = run_seed(seed, p.id, k);
            });
            samples.push(format!("run {k}:\n{}", short_trace(&t, 40)));
        }
        k += 1;
    }

    let mut violation = None;
    if bad != u64::MAX {
        let first = run_index(p, seed, bad);
        let Res::Violation(class) = first else {
            eprintln!("HARNESS ERROR run {bad} failed in the batch but not again: {first:?}");
            return 2;
        };
        let msg0 = sh().msg_str();
        let full = rec_tape();
        let overflow = sh().rec_overflow > 0;
        let slow = class == "hang" || class == "blocked";
        let (t, used) = if overflow {
            (full.clone(), 0)
        } else {
            shrink(p, &class, full.clone(), if slow { 30 } else { 2500 }, if slow { 60 } else { 45 }, if slow { 5 } else { 20 })
        };
        let ok = !overflow && run_tape(p, &t, 20) == Res::Violation(class.clone());
        let (mode, t) = if ok { ("tape", t) } else { ("seed", Vec::new()) };
        let (r, trace) = traced(p, &|| {
            let s = sh();
            s.reset();
            if ok {
                s.mode = 1;
                s.replay[..t.len()].copy_from_slice(&t);
                s.replay_len = t.len() as u64;
            } else {
                s.prng = run_seed(seed, p.id, bad);
            }
        });
        if r != Res::Violation(class.clone()) {
            eprintln!("HARNESS ERROR the minimised run does not repeat: {r:?} instead of {class}");
            return 2;
        }
        let msg = sh().msg_str();
        let mut f = String::new();
        let _ = writeln!(f, "simcheck-replay 1");
        let _ = writeln!(f, "property={id}\nseed={seed}\nrun={bad}\nclass={class}\nmode={mode}");
        let _ = writeln!(f, "message={}", msg.replace('\n', " "));
        let _ = writeln!(f, "tape={}", t.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
        let _ = writeln!(f, "# choices: {} recorded, {} after minimisation ({used} candidate runs)", full.len(), t.len());
        let _ = writeln!(f, "# original message: {}", msg0.replace('\n', " "));
        let _ = writeln!(f, "# schedule and fault trace of the minimised run:");
        for l in short_trace(&trace, 400).lines() {
            let _ = writeln!(f, "# {l}");
        }
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-s{seed}-r{bad}.replay"));
        std::fs::write(&path, f).expect("replay file");
        // the file must do it again in a fresh process
        let st = std::process::Command::new(std::env::current_exe().expect("exe")).arg("replay").arg(&path).arg("-q").status();
        if !matches!(st, Ok(s) if s.code() == Some(1)) {
            eprintln!("HARNESS ERROR the replay file does not reproduce: {st:?}");
            return 2;
        }
        println!("class: {class}\n{msg}\nrun {bad}, {} choices minimised to {}", full.len(), t.len());
        violation = Some((path, class, msg));
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::new();
    let per_hour = runs as f64 / main_s.max(0.001) * 3600.0;
    let _ = write!(
        e,
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"samples\": [{}],\n",
        p.level,
        logs.len(),
        esc(&format!(
            "one evaluation is one simulated execution of the real library in its own process; its seed is derived from VERIF_SEED, the property and the run index, and decides workload, deliveries, schedule and faults. Non-trivial: at least one fault, interruption, preemption or irregular delivery really fired and at least one result was compared with the reference model. Distinct: different event-log hash. {}",
            p.rule
        )),
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        e,
        "  \"nontrivial_runs\": {nontrivial},\n  \"runs_with_faults\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"results_compared_with_model\": {},\n  \"simulator_events\": {},\n  \"choices_drawn\": {},\n  \"simulated_subtitle_time_s\": {:.1},\n",
        sum(&|t| t.faulty_runs),
        per_hour,
        per_hour,
        sum(&|t| t.compared),
        sum(&|t| t.events),
        sum(&|t| t.tape),
        sum(&|t| t.media_ms) as f64 / 1000.0,
    );
    for (cls, key) in [('F', "faults_injected"), ('P', "reach_probes"), ('E', "events")] {
        let mut parts = Vec::new();
        for (i, (name, c)) in EV_NAMES.iter().enumerate() {
            if *c == cls {
                let x = sum(&|t| t.counters[i]);
                let r = sum(&|t| t.runs_with[i]);
                if x > 0 {
                    parts.push(format!("\"{}\": {{\"count\": {x}, \"runs\": {r}}}", esc(name)));
                }
            }
        }
        let _ = write!(e, "  \"{key}\": {{{}}},\n", parts.join(", "));
    }
    let _ = write!(
        e,
        "  \"real_components\": \"{}\",\n  \"stubbed_components\": \"{}\",\n  \"determinism\": {{\"runs_repeated\": {redone}, \"mismatches\": {}}},\n  \"unbelieved_timeouts\": {},\n  \"tape_overflows\": {},\n  \"workers\": {workers}\n }},\n \"wall_s\": {wall:.1},\n \"violations\": {}\n}}\n",
        esc(p.real),
        esc(p.stub),
        mismatch.len(),
        b.soft.load(SeqCst),
        sum(&|t| t.overflow),
        violation.as_ref().map_or("[]".into(), |(p, c, m)| format!("[{{\"replay\": \"{}\", \"class\": \"{}\", \"message\": \"{}\"}}]", esc(&p.display().to_string()), esc(c), esc(m)))
    );
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    std::fs::write(dir.join(format!("evidence/{id}.json")), e).expect("evidence");
    if !mismatch.is_empty() {
        eprintln!("HARNESS ERROR runs not repeatable: {mismatch:?}");
        return 2;
    }
    if let Some((path, _, _)) = violation {
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    println!("{id}: held on {runs} runs ({nontrivial} non-trivial, {} distinct) in {wall:.1} s", logs.len());
    0
}

fn replay(path: &str, quiet: bool) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).unwrap_or("").to_owned();
    let p = find(&get("property"));
    let class = get("class");
    let t: Vec<u64> = get("tape").split(',').filter_map(|x| x.parse().ok()).collect();
    let seed: u64 = get("seed").parse().unwrap_or(1);
    let run: u64 = get("run").parse().unwrap_or(0);
    let by_tape = get("mode") == "tape";
    set_shared(map_shared());
    let scratch = Scratch(scratch_base());
    enter(&scratch.0, "main");
    let (r, trace) = traced(p, &|| {
        let s = sh();
        s.reset();
        if by_tape {
            s.mode = 1;
            let k = t.len().min(TAPE_CAP);
            s.replay[..k].copy_from_slice(&t[..k]);
            s.replay_len = k as u64;
        } else {
            s.prng = run_seed(seed, p.id, run);
        }
    });
    if !quiet {
        println!("{trace}");
    }
    match r {
        Res::Violation(c) => {
            if !quiet {
                println!("{}\n{}", c, sh().msg_str());
                println!("{} property={} class={c}", if c == class { "REPRODUCED" } else { "DIFFERENT VIOLATION" }, p.id);
            }
            1
        }
        Res::Held => {
            println!("held: the recorded execution no longer breaks {}", p.id);
            0
        }
        Res::Harness(m) => {
            eprintln!("HARNESS ERROR {m}");
            2
        }
    }
}

fn single(id: &str, idx: u64) -> i32 {
    let p = find(id);
    let seed = env_u64("VERIF_SEED", 1);
    set_shared(map_shared());
    let scratch = Scratch(scratch_base());
    enter(&scratch.0, "main");
    let (r, t) = traced(p, &|| {
        let s = sh();
        s.reset();
        s.prng = run_seed(seed, p.id, idx);
    });
    println!("{t}");
    println!("{r:?} {} hash={:x} tape={} overflow={}", sh().msg_str(), sh().hash, sh().rec_len, sh().rec_overflow);
    i32::from(r != Res::Held)
}

/// Runs every property's runs a..b twice with different worker counts and compares the logs.
fn selftest(per: u64) -> i32 {
    let mut bad = 0;
    let seed = env_u64("VERIF_SEED", 1);
    let only = std::env::args().nth(3);
    for p in PROPS.iter().filter(|p| only.as_ref().is_none_or(|o| o == p.id)) {
        let scratch = Scratch(scratch_base());
        let mk = || Arrays { hash: map_bytes(per as usize * 8 + 8).cast(), class: map_bytes(per as usize * 8 + 8).cast(), flag: map_bytes(per as usize + 8) };
        let (a, c) = (mk(), mk());
        let (_, b1) = batch(p, seed, per, None, 8, 10_000, &a, &scratch.0, Instant::now());
        let (_, b2) = batch(p, seed, per, None, 3, 10_000, &c, &scratch.0, Instant::now());
        let mut diff = 0;
        for i in 0..per as usize {
            unsafe {
                if *a.hash.add(i) != *c.hash.add(i) || *a.flag.add(i) != *c.flag.add(i) {
                    diff += 1;
                    println!("{}: run {i} differs", p.id);
                }
            }
        }
        println!("{}: {per} runs twice, {diff} differ, first bad {} {}", p.id, b1.min_bad.load(SeqCst) as i64, b2.min_bad.load(SeqCst) as i64);
        bad += diff;
    }
    i32::from(bad > 0)
}

/// Which branches of the library the runs of the named properties reach (finely instrumented
/// build with SIMCHECK_PCS=1 only): prints the address of every branch and whether it was.
fn reach(per: u64, ids: &[String]) -> i32 {
    let n = covrt::guards() as usize + 1;
    let marks = map_bytes(n);
    covrt::mark_edges(marks, n);
    let scratch = Scratch(scratch_base());
    for p in PROPS.iter().filter(|p| ids.is_empty() || ids.iter().any(|i| i == p.id)) {
        let a = Arrays { hash: map_bytes(per as usize * 8 + 8).cast(), class: map_bytes(per as usize * 8 + 8).cast(), flag: map_bytes(per as usize + 8) };
        batch(p, env_u64("VERIF_SEED", 1), per, None, 8, 10_000, &a, &scratch.0, Instant::now());
    }
    let maps = std::fs::read_to_string("/proc/self/maps").expect("maps");
    let base = usize::from_str_radix(maps.split('-').next().expect("address"), 16).expect("address");
    for (i, pc) in covrt::pcs(base).iter().enumerate() {
        println!("{:#x} {}", pc, unsafe { *marks.add(i + 1) });
    }
    0
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match a.get(1).map(String::as_str) {
        Some("check") => check(&a[2], a.get(3).map_or(tier.as_str(), String::as_str)),
        Some("replay") => replay(&a[2], a.get(3).is_some_and(|x| x == "-q")),
        Some("run") => single(&a[2], a[3].parse().expect("index")),
        Some("selftest") => selftest(a.get(2).and_then(|x| x.parse().ok()).unwrap_or(500)),
        Some("reach") => reach(a[2].parse().expect("runs"), &a[3..]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check ID [quick|thorough] | replay FILE [-q] | run ID INDEX | selftest [N] | list");
            2
        }
    };
    std::process::exit(code);
}

#[allow(dead_code)]
fn unused(_: &Shared) {}
