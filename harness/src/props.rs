//! Which scenarios decide which property, and which observations violate it.

use crate::big;
use crate::core::{self, Prof};
use crate::fsx;
use crate::history;
use crate::http;
use crate::mem;
use crate::spec::GenCfg;
use crate::world::K;

pub struct Prop {
    pub id: &'static str,
    pub relevant: fn(K) -> bool,
    /// name, weight, run
    pub scenarios: &'static [(&'static str, u64, fn())],
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const REAL: &str = "zippity Builder, Reader, CrcReader, AsRefReader, BytesStream and all structure encoding (unmodified, from /repo)";
const STUB: &str = "EntryData sources (simulated content, opening, latency, failures), executor, wakers, clock";
const REAL_HTTP: &str = "zippity ActixWebAdapter, Body, BytesStream, Reader (unmodified, from /repo); actix-web request, response and body types; tokio oneshot channel";
const STUB_HTTP: &str = "EntryData sources, the HTTP server around the responder (connection, disconnects, back-pressure), executor, wakers, clock";
const REAL_ANY: &str = "zippity Builder, Reader, BytesStream, ActixWebAdapter and Body, FilesystemEntry (unmodified, from /repo); actix-web request, response and body types; tokio oneshot channel; tokio::fs logic; the kernel's file system in a scratch directory";
const STUB_ANY: &str = "EntryData sources where no real files are used, the HTTP server around the responder, blocking thread pool of tokio::fs (vendored copy with a seam), executor, wakers, clock";
const REAL_FS: &str = "zippity add_directory_recursive, add_filesystem_entry, FilesystemEntry, Builder, Reader (unmodified, from /repo); tokio::fs logic; the kernel's file system in a scratch directory";
const STUB_FS: &str = "blocking thread pool of tokio::fs (vendored copy with a seam), directory listing order, operation failures, short reads, executor, wakers, clock";
const ASSUME: &[&str] = &["a clean batch of seeded runs is evidence, not proof"];

fn c01() {
    core::scenario(&Prof {
        w_seek: 0,
        w_badseek: 0,
        w_clone: 0,
        w_take: 0,
        w_drop: 0,
        full_first: 1000,
        generate: GenCfg { supply: 500, ..Prof::default().generate },
        ..Prof::default()
    });
}

fn c02() {
    core::scenario(&Prof {
        w_badseek: 0,
        w_clone: 0,
        w_take: 0,
        w_seek: 1,
        full_first: 800,
        steps: 40,
        ..Prof::default()
    });
}

fn c04() {
    core::scenario(&Prof { w_seek: 50, w_badseek: 8, full_first: 0, ..Prof::default() });
}

fn c05() {
    core::scenario(&Prof { errors: true, w_seek: 20, w_badseek: 10, ..Prof::default() });
}

fn c06() {
    core::scenario(&Prof { errors: true, w_seek: 25, w_rebuild: 10, w_clone: 6, w_take: 6, full_first: 200, ..Prof::default() });
}

fn c07() {
    core::scenario(&Prof { w_seek: 20, w_take: 6, w_drop: 6, generate: GenCfg { supply: 500, ..Prof::default().generate }, ..Prof::default() });
}

fn c07e() {
    core::scenario(&Prof { errors: true, w_seek: 20, w_take: 6, w_drop: 6, generate: GenCfg { supply: 500, ..Prof::default().generate }, ..Prof::default() });
}

fn c08() {
    core::scenario(&Prof { errors: true, memory_types: 0, generate: GenCfg { supply: 500, ..Prof::default().generate }, ..Prof::default() });
}

fn bad_profile() -> Prof {
    Prof { memory_types: 0, max_clients: 2, full_first: 500, generate: GenCfg { supply: 500, bad_len: 400, bad_dyn: 200, clamp: 300, ..Prof::default().generate }, ..Prof::default() }
}

fn c09() {
    core::scenario(&bad_profile());
}

fn c09e() {
    core::scenario(&Prof { errors: true, ..bad_profile() });
}

fn c10() {
    core::scenario(&Prof { generate: GenCfg { supply: 600, bad_crc: 350, ..Prof::default().generate }, ..Prof::default() });
}

fn c10e() {
    core::scenario(&Prof { errors: true, generate: GenCfg { supply: 600, bad_crc: 350, ..Prof::default().generate }, ..Prof::default() });
}

fn c11() {
    core::scenario(&Prof { memory_types: 0, w_seek: 15, errors: true, ..Prof::default() });
}

fn c12() {
    core::scenario(&Prof { w_clone: 25, w_take: 25, w_drop: 15, w_seek: 10, max_clients: 4, ..Prof::default() });
}

fn c12e() {
    core::scenario(&Prof { errors: true, w_clone: 25, w_take: 25, w_drop: 15, w_seek: 10, max_clients: 4, ..Prof::default() });
}

fn c13() {
    core::scenario(&Prof { stream_first: 900, w_toggle: 6, w_clone: 8, ..Prof::default() });
}

fn c13e() {
    core::scenario(&Prof { errors: true, stream_first: 900, w_toggle: 6, w_clone: 8, ..Prof::default() });
}

fn c16() {
    core::scenario(&Prof {
        errors: true,
        w_clone: 10,
        w_build: 10,
        max_clients: 6,
        steps: 250,
        generate: GenCfg { bad_len: 60, bad_crc: 60, supply: 400, ..Prof::default().generate },
        ..Prof::default()
    });
}

fn c16_files() {
    fsx::tree(
        &Prof { errors: true, w_clone: 12, w_build: 12, w_seek: 12, max_clients: 6, steps: 150, full_first: 100, ..Prof::default() },
        false,
    );
}

fn huge() {
    big::huge(&Prof { w_seek: 60, w_badseek: 4, w_take: 4, w_clone: 4, w_rebuild: 0, ..Prof::default() });
}

fn huge_errors() {
    big::huge(&Prof { errors: true, w_seek: 60, w_badseek: 4, w_take: 4, w_clone: 4, w_rebuild: 0, ..Prof::default() });
}

fn giant() {
    big::giant(&Prof::default());
}

fn many() {
    big::many(&Prof::default());
}

fn history_edit() {
    history::builder(true);
}

fn history_plain() {
    history::builder(false);
}

fn http_plain() {
    http::scenario(&Prof { generate: GenCfg { supply: 400, max_size: 40_000, max_entries: 12, ..Prof::default().generate }, ..Prof::default() });
}

fn http_errors() {
    http::scenario(&Prof { errors: true, generate: GenCfg { supply: 400, max_size: 40_000, max_entries: 12, ..Prof::default().generate }, ..Prof::default() });
}

fn http_huge() {
    http::huge(&Prof::default());
}

fn http_huge_errors() {
    http::huge(&Prof { errors: true, ..Prof::default() });
}

fn http_bad() {
    http::scenario(&Prof {
        generate: GenCfg { supply: 500, bad_len: 250, bad_crc: 150, clamp: 300, max_size: 20_000, max_entries: 8, ..Prof::default().generate },
        ..Prof::default()
    });
}

fn fs_tree() {
    fsx::tree(&Prof::default(), false);
}

fn fs_errors() {
    fsx::tree(&Prof { errors: true, ..Prof::default() }, false);
}

fn fs_served() {
    fsx::served(&Prof::default());
}

fn fs_served_errors() {
    fsx::served(&Prof { errors: true, ..Prof::default() });
}

fn fs_cancel() {
    fsx::tree(&Prof::default(), true);
}

fn fs_all() {
    fsx::tree(&Prof { errors: true, ..Prof::default() }, true);
}

fn fs_changing() {
    fsx::changing(&Prof::default());
}

fn fs_changing_errors() {
    fsx::changing(&Prof { errors: true, ..Prof::default() });
}

fn mem_peak() {
    mem::peak_run(&Prof { ..Prof::default() });
}

fn mem_peak_errors() {
    mem::peak_run(&Prof { errors: true, ..Prof::default() });
}

fn mem_files() {
    mem::files(&Prof::default());
}

fn mem_files_errors() {
    mem::files(&Prof { errors: true, ..Prof::default() });
}

fn mem_plateau() {
    mem::plateau(&Prof { errors: true, ..Prof::default() });
}

macro_rules! kinds {
    ($($k:ident)|*) => {
        |k| matches!(k, $(K::$k)|*)
    };
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        relevant: kinds!(Bytes | Clobber | EarlyEof | PastEnd | UnexpErr | PendBytes | ErrBytes | StreamItem | Panic | Stall | Unbounded | Proto | Moved),
        scenarios: &[("sequential", 1, c01)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C02",
        relevant: kinds!(Parse | Spec | Bytes | PastEnd | EarlyEof | UnexpErr | Panic | Meta | Builder | Size | Stall | Unbounded | ErrBytes | PendBytes),
        scenarios: &[("archives", 12_000, c02), ("huge", 3000, huge), ("histories", 1500, history_plain), ("many", 6, many), ("giant", 1, giant)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C03",
        relevant: kinds!(Size | EarlyEof | PastEnd | OpenUnjust | Builder | Panic),
        scenarios: &[("histories", 50, history_edit), ("archives", 20, c02), ("huge", 20, huge), ("mixed", 10, c05), ("wrong_length", 5, c09)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C04",
        relevant: kinds!(Bytes | Clobber | EarlyEof | PastEnd | SeekRes | SeekErr | UnexpErr | PendBytes | ErrBytes | Panic | Stall | Tell | Unbounded | Proto | Moved),
        scenarios: &[("seeks", 4, c04), ("huge", 1, huge)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C05",
        relevant: kinds!(Tell | SeekRes | CloneDiff | Panic | ErrBytes | PendBytes | UnexpErr | Stall | Unbounded),
        scenarios: &[("tell", 5, c05), ("huge", 1, huge_errors)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C06",
        relevant: kinds!(CrcWrong | CrcLost | CrcMissing | Bytes | Panic | UnexpErr | Stall | Unbounded),
        scenarios: &[("crcs", 1, c06)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C07",
        relevant: kinds!(OpenUnjust | OpenTwice | TwoOpen | Leak | Proto | Moved | Panic),
        scenarios: &[("lazy", 2, c07), ("lazy_errors", 1, c07e)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C08",
        relevant: kinds!(Bytes | Clobber | EarlyEof | PastEnd | UnexpErr | Swallow | ErrBytes | PendBytes | Panic | Stall | Unbounded | Proto | Moved),
        scenarios: &[("errors", 1, c08)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C09",
        relevant: kinds!(WrongLen | Bytes | EarlyEof | PastEnd | UnexpErr | ErrBytes | PendBytes | Panic | Stall | Unbounded | Proto | Moved),
        scenarios: &[("wrong_length", 3, c09), ("wrong_length_errors", 1, c09e)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C10",
        relevant: kinds!(WrongCrc | UnexpErr | Panic | CrcLost | Stall | Unbounded | EarlyEof | PastEnd),
        scenarios: &[("wrong_crc", 3, c10), ("wrong_crc_errors", 1, c10e)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C11",
        relevant: kinds!(Stall | Unbounded | PendBytes | EarlyEof | Panic | Proto | Moved),
        scenarios: &[("progress", 1, c11)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C12",
        relevant: kinds!(Idle | Bytes | EarlyEof | PastEnd | Tell | Size | CloneDiff | TakeEmpty | Leak | CrcLost | CrcWrong | UnexpErr | ErrBytes | Panic | Stall | SeekRes | Proto | Moved | TwoOpen | OpenUnjust | Clobber | PendBytes | Unbounded),
        scenarios: &[("clones", 2, c12), ("clones_errors", 1, c12e)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C13",
        relevant: kinds!(StreamItem | Bytes | EarlyEof | PastEnd | UnexpErr | Swallow | ErrBytes | PendBytes | Panic | Stall | Unbounded | Tell | Size | CloneDiff | Clobber | Proto | Moved),
        scenarios: &[("streams", 2, c13), ("streams_errors", 1, c13e)],
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    },
    Prop {
        id: "C14",
        relevant: kinds!(HttpHdr | HttpBody | HttpSilent | Bytes | WrongLen | WrongCrc | Swallow | UnexpErr | EarlyEof | PastEnd | OpenUnjust | Panic | Stall | Unbounded | Proto | Moved),
        scenarios: &[("requests", 3, http_plain), ("requests_errors", 2, http_errors), ("requests_wrong_sources", 2, http_bad), ("requests_huge", 1, http_huge), ("requests_files", 1, fs_served_errors)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C15",
        relevant: kinds!(Chan | Leak | CrcLost | CrcWrong | Bytes | Tell | Size | EarlyEof | PastEnd | UnexpErr | Panic | Stall | Unbounded | Proto | Moved),
        scenarios: &[("requests", 2, http_plain), ("requests_errors", 3, http_errors), ("requests_wrong_sources", 1, http_bad), ("requests_huge", 1, http_huge_errors), ("requests_files", 1, fs_served_errors)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C16",
        relevant: kinds!(Idle | Bytes | EarlyEof | PastEnd | Tell | Size | CrcLost | CrcWrong | UnexpErr | Panic | Stall | TwoOpen | Leak | ErrBytes | PendBytes | Clobber | Unbounded | Swallow | CloneDiff | SeekRes | Proto | Moved),
        scenarios: &[("concurrent", 4, c16), ("files", 1, c16_files)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C17",
        relevant: kinds!(Tree | Spec | Meta | Parse | Bytes | EarlyEof | PastEnd | UnexpErr | Builder | Size | Stall | Unbounded | Panic | FsFault),
        scenarios: &[("trees", 8, fs_tree), ("trees_served", 1, fs_served)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C18",
        relevant: kinds!(FsFault | FsSilent | Tree | Builder | Swallow | Bytes | EarlyEof | PastEnd | ErrBytes | UnexpErr | Parse | Spec | Size | Leak | Stall | Unbounded | Panic),
        scenarios: &[("trees_errors", 3, fs_errors), ("changing", 3, fs_changing), ("changing_errors", 2, fs_changing_errors), ("trees_cancelled", 1, fs_all), ("trees_served", 1, fs_served_errors)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C19",
        relevant: kinds!(Builder | Tree | Size | Parse | Spec | Meta | Bytes | UnexpErr | EarlyEof | Panic | PastEnd | Unbounded | Stall),
        scenarios: &[("histories", 16, history_plain), ("histories_edits", 4, history_edit), ("trees_cancelled", 3, fs_cancel), ("trees_errors_cancelled", 2, fs_all)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C20",
        relevant: kinds!(Meta | Panic | Builder | UnexpErr),
        scenarios: &[("metadata", 6, history::meta), ("trees", 1, fs_tree)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
    Prop {
        id: "C21",
        relevant: kinds!(Mem | Panic | Stall),
        scenarios: &[("peak", 2, mem_peak), ("peak_errors", 1, mem_peak_errors), ("plateau", 6, mem_plateau), ("peak_files", 2, mem_files), ("peak_files_errors", 1, mem_files_errors)],
        real: REAL_ANY,
        stub: STUB_ANY,
        assumptions: ASSUME,
    },
];
