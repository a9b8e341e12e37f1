//! The simulated world: the only source of choices, time and events of a run.
//!
//! Everything that happens in a run is decided by the choice tape. A tape is generated from one
//! seed, recorded, and can be replayed: a run is a pure function of (scenario, tape, code).

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashMap, HashSet};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Wake, Waker};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Classes of violations. What a violation means for each property is decided in `props.rs`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum K {
    Bytes,
    Clobber,
    EarlyEof,
    PastEnd,
    Tell,
    Size,
    SeekRes,
    SeekErr,
    UnexpErr,
    Swallow,
    ErrBytes,
    PendBytes,
    Panic,
    Stall,
    Unbounded,
    CrcWrong,
    CrcLost,
    CrcMissing,
    OpenUnjust,
    OpenTwice,
    Leak,
    TwoOpen,
    Proto,
    Moved,
    WrongLen,
    WrongCrc,
    Parse,
    Spec,
    TakeEmpty,
    CloneDiff,
    Mem,
    HttpHdr,
    HttpBody,
    HttpSilent,
    Chan,
    Tree,
    FsFault,
    FsSilent,
    Builder,
    Meta,
    StreamItem,
    Idle,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: K,
    pub msg: String,
}

/// Fault and disturbance kinds, counted when they really happen.
#[derive(Clone, Copy, Debug)]
#[repr(usize)]
pub enum F {
    PendOpen,
    PendRead,
    PendSeek,
    Stall,
    YieldNow,
    ShortRead,
    ErrOpen,
    ErrRead,
    ErrSeek,
    ErrStartSeek,
    Persistent,
    Spurious,
    WakerSwap,
    Abandon,
    SeekWhilePending,
    DropWhilePending,
    CloneWhilePending,
    TakeWhilePending,
    WrongLength,
    LengthChange,
    WrongCrc,
    ClampedSeek,
    FsError,
    FsShort,
    FsReorder,
    FsMutation,
    FsCancel,
    Disconnect,
    ReceiverGone,
    ClockSkew,
    SlowConsumer,
    DuplicatePoll,
    Count,
}

pub const FAULT_NAMES: [&str; F::Count as usize] = [
    "pending_open",
    "pending_read",
    "pending_seek",
    "source_stall",
    "self_wake_yield",
    "short_read",
    "open_error",
    "read_error",
    "seek_error",
    "start_seek_error",
    "persistent_failure",
    "spurious_poll",
    "waker_change",
    "abandoned_read",
    "seek_while_pending",
    "drop_while_pending",
    "clone_while_pending",
    "take_while_pending",
    "wrong_length_source",
    "length_change_mid_pass",
    "wrong_crc_supplied",
    "clamped_seek_source",
    "fs_operation_error",
    "fs_short_read",
    "fs_listing_reorder",
    "fs_concurrent_mutation",
    "fs_scan_cancelled",
    "http_disconnect",
    "receiver_dropped",
    "clock_extreme",
    "slow_consumer",
    "poll_after_wake_elsewhere",
];

/// Per run probabilities (per mille) of disturbances, chosen once per run.
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub pend: u64,
    pub yield_now: u64,
    pub stall: u64,
    pub short: u64,
    pub short_max: u64,
    pub err_open: u64,
    pub err_read: u64,
    pub err_seek: u64,
    pub persistent: u64,
    pub spurious: u64,
    pub waker_swap: u64,
    pub fs_err: u64,
    pub err_budget: u64,
}

pub struct World {
    // tape
    pub tape: Vec<u64>,
    pos: usize,
    replay: bool,
    rng: u64,
    pub exhausted: bool,
    // time and events
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    events: Vec<Option<Box<dyn FnOnce()>>>,
    free: Vec<usize>,
    // log
    pub hash: u64,
    pub log_len: u64,
    pub trace: Option<Vec<String>>,
    // configuration
    pub chaos: bool,
    pub errors_on: bool,
    pub cfg: Cfg,
    pub pend_budget: u64,
    pub start_seek_errors: bool,
    // observation
    pub cur: usize,
    /// Client that was used last
    pub last_client: usize,
    pub viol: Vec<Violation>,
    pub relevant: fn(K) -> bool,
    pub abort: bool,
    pub faults: [u64; F::Count as usize],
    pub probes: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub polls: u64,
    pub src_ops: u64,
    pub src_ops_poll: u64,
    pub src_limit: u64,
    pub src_bytes: u64,
    pub poll_errs: u64,
    pub pends: u64,
    pub opens: Vec<(usize, usize)>,
    /// (client, entry, future or reader token) of everything that is open now
    pub live: Vec<(usize, usize, u64)>,
    pub next_token: u64,
    pub bytes_out: u64,
    /// Generation of the source of a client: operations of older ones do not concern it any more
    pub gens: HashMap<usize, u64>,
    /// Failures of file operations by client, not yet reported
    pub fs_errs: HashMap<usize, u64>,
}

fn any(_: K) -> bool {
    true
}

impl World {
    fn new() -> Self {
        World {
            tape: Vec::new(),
            pos: 0,
            replay: false,
            rng: 0,
            exhausted: false,
            now: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            events: Vec::new(),
            free: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            log_len: 0,
            trace: None,
            chaos: false,
            errors_on: false,
            cfg: Cfg::default(),
            pend_budget: u64::MAX,
            start_seek_errors: true,
            cur: 0,
            last_client: usize::MAX,
            viol: Vec::new(),
            relevant: any,
            abort: false,
            faults: [0; F::Count as usize],
            probes: BTreeMap::new(),
            states: HashSet::new(),
            polls: 0,
            src_ops: 0,
            src_ops_poll: 0,
            src_limit: u64::MAX,
            src_bytes: 0,
            poll_errs: 0,
            pends: 0,
            opens: Vec::new(),
            live: Vec::new(),
            next_token: 0,
            bytes_out: 0,
            gens: HashMap::new(),
            fs_errs: HashMap::new(),
        }
    }
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::new());
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _own = crate::mem::Own::enter();
    W.with(|w| f(&mut w.borrow_mut()))
}

/// Starts a new run. The remains of the previous run are dropped outside of the borrow.
pub fn reset(seed: u64, replay: Option<Vec<u64>>, trace: bool, relevant: fn(K) -> bool) {
    let old = W.with(|w| std::mem::replace(&mut *w.borrow_mut(), World::new()));
    drop(old);
    w(|w| {
        w.rng = seed;
        if let Some(t) = replay {
            w.tape = t;
            w.replay = true;
        } else {
            w.tape = Vec::with_capacity(1 << 12);
        }
        w.trace = trace.then(Vec::new);
        w.relevant = relevant;
    });
}

/// Ends the run and returns its record; pending events are dropped outside of the borrow.
pub fn finish() -> World {
    let mut old = W.with(|w| std::mem::replace(&mut *w.borrow_mut(), World::new()));
    let ev = std::mem::take(&mut old.events);
    drop(ev);
    old
}

/// Uniform choice in `0..n`; 0 is the simplest choice (used when shrinking).
pub fn draw(n: u64) -> u64 {
    w(|w| {
        if n <= 1 {
            return 0;
        }
        let v = if w.replay {
            let v = if w.pos < w.tape.len() {
                w.tape[w.pos]
            } else {
                w.exhausted = true;
                0
            };
            v.min(n - 1)
        } else {
            w.rng = w.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let r = mix(w.rng);
            let v = ((u128::from(r) * u128::from(n)) >> 64) as u64;
            w.tape.push(v);
            v
        };
        w.pos += 1;
        v
    })
}

/// True with probability `pm` / 1000; `false` is the simple choice.
pub fn chance(pm: u64) -> bool {
    if pm == 0 {
        return false;
    }
    draw(1000) >= 1000u64.saturating_sub(pm)
}

pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

/// Choice by weights; index 0 should be the simplest alternative.
pub fn weighted(ws: &[u64]) -> usize {
    let total: u64 = ws.iter().sum();
    let mut v = draw(total);
    for (i, &x) in ws.iter().enumerate() {
        if v < x {
            return i;
        }
        v -= x;
    }
    ws.len() - 1
}

pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u64) as usize]
}

/// Event log: a rolling hash always, text only when tracing.
pub fn ev(code: &'static str, a: u64, b: u64) {
    w(|w| {
        w.log_len += 1;
        let mut h = w.hash;
        for byte in code.as_bytes() {
            h = (h ^ u64::from(*byte)).wrapping_mul(0x0100_0000_01b3);
        }
        h = mix(h ^ a.rotate_left(17));
        h = mix(h ^ b.rotate_left(31) ^ w.now);
        w.hash = h;
        let (now, cur) = (w.now, w.cur);
        if let Some(t) = &mut w.trace {
            if t.len() < 20_000 {
                t.push(format!("t={now} c{cur} {code} {a} {b}"));
            }
        }
    });
}

pub fn note(s: impl FnOnce() -> String) {
    let tracing = w(|w| w.trace.is_some());
    if tracing {
        let _own = crate::mem::Own::enter();
        let s = s();
        w(|w| {
            let now = w.now;
            if let Some(t) = &mut w.trace {
                t.push(format!("t={now} -- {s}"));
            }
        });
    }
}

pub fn fault(f: F) {
    w(|w| w.faults[f as usize] += 1);
}

pub fn probe(name: &'static str) {
    w(|w| *w.probes.entry(name).or_insert(0) += 1);
}

pub fn viol(kind: K, msg: impl FnOnce() -> String) {
    let _own = crate::mem::Own::enter();
    let m = msg();
    w(|w| {
        if w.viol.len() < 16 {
            if let Some(t) = &mut w.trace {
                t.push(format!("VIOLATION {kind:?}: {m}"));
            }
            w.viol.push(Violation { kind, msg: m });
        }
        if (w.relevant)(kind) || w.viol.len() >= 16 {
            w.abort = true;
        }
    });
}

pub fn aborted() -> bool {
    w(|w| w.abort)
}

pub fn after(delay: u64, f: Box<dyn FnOnce()>) {
    w(|w| {
        let idx = if let Some(i) = w.free.pop() {
            w.events[i] = Some(f);
            i
        } else {
            w.events.push(Some(f));
            w.events.len() - 1
        };
        w.seq += 1;
        let at = w.now.saturating_add(delay);
        w.heap.push(Reverse((at, w.seq, idx)));
    });
}

/// Runs the next event; false when there is none.
pub fn step_event() -> bool {
    let f = w(|w| {
        let Reverse((at, _, idx)) = w.heap.pop()?;
        w.now = w.now.max(at);
        w.free.push(idx);
        w.events[idx].take()
    });
    match f {
        Some(f) => {
            f();
            true
        }
        None => false,
    }
}

pub fn has_events() -> bool {
    w(|w| !w.heap.is_empty())
}

/// Delay of a simulated operation in nanoseconds: mostly short, sometimes a long stall.
pub fn draw_delay() -> u64 {
    let stall = w(|w| w.cfg.stall);
    if stall > 0 && chance(stall) {
        fault(F::Stall);
        1_000_000_000 * (1 + draw(100))
    } else {
        1 + draw(2000)
    }
}

#[derive(Debug)]
pub struct WakeFlag {
    pub woken: AtomicBool,
}

impl Wake for WakeFlag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed);
    }
}

impl WakeFlag {
    pub fn new() -> Arc<Self> {
        Arc::new(WakeFlag {
            woken: AtomicBool::new(false),
        })
    }
    pub fn is(&self) -> bool {
        self.woken.load(Ordering::Relaxed)
    }
    pub fn clear(&self) {
        self.woken.store(false, Ordering::Relaxed);
    }
}

pub fn waker(f: &Arc<WakeFlag>) -> Waker {
    Waker::from(f.clone())
}

/// Payload of a panic raised by the simulator itself to leave an unbounded loop in one poll.
pub struct SimAbort(pub &'static str);

/// Called by sources on every operation.
pub fn src_op() {
    let over = w(|w| {
        w.src_ops += 1;
        w.src_ops_poll += 1;
        w.src_ops_poll > w.src_limit
    });
    if over {
        viol(K::Unbounded, || {
            "a single call made an unbounded number of source operations".into()
        });
        std::panic::panic_any(SimAbort("unbounded poll"));
    }
}
