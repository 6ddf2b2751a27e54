pub mod brokenp;
pub mod filep;
pub mod memp;
pub mod pgsp;
pub mod textp;
pub mod thrp;
pub mod toolp;
pub mod vobp;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// simulated runs of the quick tier
    pub quick: u64,
    /// the thorough tier runs this many times more
    pub factor: u64,
    pub logging: bool,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const PGS: (&str, &str) = (
    "subtile's PGS parser and renderer (unmodified), std BufReader and File",
    "reader (simulated chunks, interruptions, failures, growth), system calls on scratch files (interposed: short, EINTR), logger, allocator accounting",
);
const VOB: (&str, &str) = (
    "subtile's VobSub demultiplexer, decoder and renderer (unmodified), std fs, nom, image crate",
    "system calls on scratch files (interposed: short reads, EINTR), the stored bytes (independent encoder, storage faults), logger, allocator accounting",
);
const BOTH: (&str, &str) = (
    "subtile's PGS parser and renderer, VobSub demultiplexer and decoder (unmodified), std BufReader, File and fs",
    "reader (simulated chunks, interruptions), system calls on scratch files (interposed: short, EINTR), the stored bytes (independent encoders), logger",
);
const TEXT: (&str, &str) = (
    "subtile's index reader and SRT/WebVTT writers (unmodified), std io, regex",
    "reader and writer (simulated), system calls on scratch files (interposed), logger",
);
const FILES: (&str, &str) = (
    "subtile (unmodified), std File and fs, image and png crates, the kernel's file system below the interposed calls",
    "open, read, write, mkdir and the other file system calls (interposed: short, EINTR, errno, disk full, races, crash)",
);
const THREADS: (&str, &str) = (
    "subtile (unmodified), real threads, std locks and lazy initialisation, std BufReader and File, regex, image crate",
    "thread scheduling and futexes (seeded scheduler, one thread at a time), readers, writers, file system calls, logger, allocator",
);

macro_rules! prop {
    ($id:literal, $f:path, $quick:expr, $factor:expr, $what:expr, $rule:literal) => {
        Prop { id: $id, run: $f, quick: $quick, factor: $factor, logging: true, level: "exploration", rule: $rule, real: $what.0, stub: $what.1 }
    };
}

pub const PROPS: &[Prop] = &[
    prop!("C01", pgsp::c01, 200_000, 40, PGS, "Workload: generated PGS streams of show/hide pairs."),
    prop!("C02", pgsp::c02, 200_000, 40, PGS, "Workload: generated PGS bitmaps."),
    prop!("C03", pgsp::c03, 200_000, 40, PGS, "Workload: generated PGS streams with stop/restart points."),
    prop!("C04", pgsp::c04, 200_000, 40, PGS, "Workload: generated PGS streams with a reader failure."),
    prop!("C05", pgsp::c05, 200_000, 40, PGS, "Workload: generated PGS streams cut at a byte."),
    prop!("C06", pgsp::c06, 200_000, 40, PGS, "Workload: generated PGS streams with storage faults."),
    prop!("C07", pgsp::c07, 200_000, 40, PGS, "Workload: generated PGS streams that end, fail or grow."),
    prop!("C08", vobp::c08, 150_000, 40, VOB, "Workload: generated VobSub program streams, stored as a file."),
    prop!("C09", vobp::c09, 150_000, 40, VOB, "Workload: generated VobSub bitmaps."),
    prop!("C10", vobp::c10, 150_000, 40, VOB, "Workload: generated VobSub streams with whole packs lost."),
    prop!("C11", vobp::c11, 150_000, 40, VOB, "Workload: generated VobSub streams cut at a byte."),
    prop!("C12", vobp::c12, 150_000, 40, VOB, "Workload: generated VobSub streams with storage faults."),
    prop!("C13", textp::c13, 150_000, 40, TEXT, "Workload: generated index files."),
    prop!("C14", textp::c14, 300_000, 40, TEXT, "Workload: generated subtitle lists."),
    prop!("C15", filep::c15, 200_000, 40, FILES, "Workload: generated image sets."),
    prop!("C16", filep::c16, 300_000, 40, FILES, "Workload: generated files of all kinds."),
    prop!("C17", thrp::c17, 40_000, 40, THREADS, "Workload: generated sets of jobs on threads."),
    prop!("C18", filep::c18, 50_000, 40, FILES, "Workload: generated conversions."),
    prop!("C19", memp::c19, 8_000, 40, PGS, "Workload: generated long streams."),
    prop!("C22", brokenp::c22, 200_000, 40, BOTH, "Workload: generated PGS and VobSub streams with subtitles that are complete but undecodable."),
    prop!("C23", toolp::c23, 300_000, 40, PGS, "Workload: sequences of exact reads and skips, and record streams with a decoder of the harness."),
];
