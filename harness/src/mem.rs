//! Memory needed while reading: a counting allocator inside of the simulation.

use crate::core::*;
use crate::fsx::{self, fs_swarm};
use crate::source::*;
use crate::spec::*;
use crate::world::*;
use actix_web::Responder;
use actix_web::body::MessageBody;
use actix_web::http::header::RANGE;
use futures_core::Stream;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, FilesystemEntry, Reader};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// Inside of the simulator itself
    static OWN: Cell<u32> = const { Cell::new(0) };
}

pub struct Counting;

fn count(d: i64) {
    let _ = OWN.try_with(|o| {
        if o.get() == 0 {
            let _ = LIVE.try_with(|l| {
                let v = l.get() + d;
                l.set(v);
                let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            });
        }
    });
}

// SAFETY: everything is forwarded to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Memory of the simulator is not counted as long as this exists.
pub struct Own;

impl Own {
    pub fn enter() -> Own {
        let _ = OWN.try_with(|o| o.set(o.get() + 1));
        Own
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        let _ = OWN.try_with(|o| o.set(o.get() - 1));
    }
}

fn live() -> i64 {
    LIVE.with(Cell::get)
}

fn start_peak() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    l
}

fn peak() -> i64 {
    PEAK.with(Cell::get)
}

type Data = SimData<()>;

/// Bytes that any number of entries of any size may need, besides of one header.
const BOUND: i64 = 192 << 10;

fn idle() {
    while step_event() {}
}

/// Waits for the flag; false if that can't happen.
fn wait(flag: &WakeFlag) -> bool {
    while !flag.is() {
        if !step_event() {
            viol(K::Stall, || "pending and nothing will ever wake it".into());
            return false;
        }
    }
    true
}

fn begin_poll() {
    w(|w| {
        w.polls += 1;
        w.src_ops_poll = 0;
        w.poll_errs = 0;
        w.opens.clear();
    });
}

/// Reads until the end, an error, or until `limit` bytes were read. Returns number of bytes.
fn read_some<D: Src>(mut r: Pin<&mut Reader<D>>, buf: &mut [u8], limit: u64) -> u64 {
    let flag = WakeFlag::new();
    let wk = waker(&flag);
    let mut cx = Context::from_waker(&wk);
    let mut n = 0u64;
    while n < limit && !aborted() {
        flag.clear();
        begin_poll();
        let room = (limit - n).min(buf.len() as u64) as usize;
        let mut rb = ReadBuf::new(&mut buf[..room]);
        match r.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => {
                if chance(20) || !wait(&flag) {
                    break;
                }
            }
            Poll::Ready(Ok(())) => {
                let k = rb.filled().len();
                if k == 0 {
                    break;
                }
                n += k as u64;
            }
            Poll::Ready(Err(_)) => {
                if !chance(500) {
                    break;
                }
            }
        }
    }
    w(|w| w.bytes_out += n);
    n
}

/// Streams chunks, of which some are held by a slow consumer. Returns (bytes, chunks held at once).
fn stream_some<S>(mut poll: impl FnMut(&mut Context<'_>) -> Poll<Option<Result<bytes::Bytes, S>>>, limit: u64, hold: usize) -> (u64, usize) {
    let flag = WakeFlag::new();
    let wk = waker(&flag);
    let mut cx = Context::from_waker(&wk);
    let mut n = 0u64;
    let mut held: std::collections::VecDeque<bytes::Bytes> = std::collections::VecDeque::with_capacity(hold + 1);
    while n < limit && !aborted() {
        flag.clear();
        begin_poll();
        match poll(&mut cx) {
            Poll::Pending => {
                if chance(20) || !wait(&flag) {
                    break;
                }
            }
            Poll::Ready(None | Some(Err(_))) => break,
            Poll::Ready(Some(Ok(b))) => {
                n += b.len() as u64;
                if hold > 0 {
                    held.push_back(b);
                    if held.len() > hold {
                        held.pop_front();
                    }
                }
            }
        }
    }
    w(|w| w.bytes_out += n);
    (n, hold)
}

fn request<D: Src>(r: Reader<D>, range: Option<(u64, u64)>, limit: u64, hold: usize, back: bool) -> Option<Reader<D>> {
    let mut req = actix_web::test::TestRequest::get();
    if let Some((a, b)) = range {
        req = req.insert_header((RANGE, format!("bytes={a}-{b}")));
    }
    let req = req.to_http_request();
    let (ad, rx) = if back {
        let (a, rx) = r.into_responder_with_channel();
        (a, Some(rx))
    } else {
        (r.into_responder(), None)
    };
    let resp = ad.respond_to(&req);
    let mut body = Box::pin(resp.into_body());
    stream_some(|cx| body.as_mut().poll_next(cx), limit, hold);
    drop(body);
    rx.and_then(|mut rx| rx.try_recv().ok())
}

struct Plan {
    names: i64,
    total: u64,
}

fn make(sizes: &dyn Fn() -> u64, long_names: bool, supply: u64) -> (Builder<Data>, Plan) {
    let mut b: Builder<Data> = Builder::new();
    let n = 1 + draw(6) as usize;
    let mut names = 0;
    for i in 0..n {
        let size = sizes();
        let name = if long_names && chance(300) { format!("{}{i}", "n".repeat(draw(60_000) as usize)) } else { format!("entry {i}") };
        names += name.len() as i64;
        let s = ESpec {
            name: name.clone(),
            content: Content::Byte(draw(256) as u8),
            size,
            truth: 0,
            supplied: None,
            bad: None,
            clamp: false,
            dt: None,
            ftype: crate::zip::FType::File,
            perm: Perm::Default,
        };
        let crc = s.content.crc(size);
        let st = Rc::new(SrcState { id: Cell::new(i), content: s.content, reported: size, actual: Cell::new(size), clamp_seek: false, broken: Cell::new(0) });
        match b.add_entry(name, Data::new(st)) {
            Ok(e) => {
                if chance(supply) {
                    e.crc32(crc);
                }
            }
            Err(e) => viol(K::Builder, || format!("valid entry was refused: {e}")),
        }
    }
    let total = b.size();
    (b, Plan { names, total })
}

fn warm_up() {
    // Lazily initialised things of the process are not a growth
    let st = Rc::new(SrcState { id: Cell::new(0), content: Content::Byte(1), reported: 5, actual: Cell::new(5), clamp_seek: false, broken: Cell::new(0) });
    let mut b: Builder<Data> = Builder::new();
    let _ = b.add_entry("x".to_string(), Data::new(st));
    for _ in 0..2 {
        if let Some(r) = request(b.clone().build(), Some((0, 10)), 5, 0, true) {
            let mut r = Box::pin(r);
            let mut buf = [0u8; 100];
            read_some(r.as_mut(), &mut buf, u64::MAX);
        }
    }
    idle();
}

/// One pass over large entries in one of the ways of reading.
pub fn peak_run(p: &Prof) {
    w(|w| {
        w.chaos = false;
        w.src_limit = u64::MAX;
    });
    let huge = chance(40);
    let sizes = || match draw(5) {
        0 => draw(100_000),
        1 => 0,
        _ if huge => 20_000_000 + draw(100_000_000),
        _ => 1_000_000 + draw(12_000_000),
    };
    warm_up();
    let (b, plan) = make(&sizes, true, 400);
    swarm(p);
    w(|w| {
        w.chaos = true;
        w.errors_on = true;
        // Single bytes of millions would take too long
        w.cfg.short_max = 100_000;
        w.cfg.short = w.cfg.short.min(300);
        w.cfg.pend = w.cfg.pend.min(100);
        w.cfg.err_read /= 20;
    });
    measure(&b, &plan, 0);
}

/// Uses an archive in one of the ways and measures the memory it needs.
fn measure<D: Src>(b: &Builder<D>, plan: &Plan, more: i64) {
    // The names in the reader and one header
    let bound = BOUND + more + 4 * plan.names;
    let total = plan.total;
    let mut buf = vec![0u8; pick(&[65_536, 8192, 100_000, 3000])];
    let way = draw(5);
    let hold = pick(&[0, 0, 1, 20]) as usize;
    note(|| format!("way {way} over {total} bytes, {hold} chunks are held"));
    ev("mem.way", way, total);
    let base = start_peak();
    let mut extra = 0i64;
    let mut done = 0;
    match way {
        0 => {
            let mut r = Box::pin(b.clone().build());
            done = read_some(r.as_mut(), &mut buf, u64::MAX);
        }
        1 => {
            let mut s = Box::pin(b.clone().build().into_bytes_stream());
            let (n, h) = stream_some(|cx| s.as_mut().poll_next(cx), u64::MAX, hold);
            done = n;
            extra = h as i64 * (64 << 10);
        }
        2 => {
            // Headers in random order: CRCs are computed by the way
            let mut r = Box::pin(b.clone().build());
            for _ in 0..6 {
                r.as_mut().seek_from_start_pinned(total - draw(total.min(500)));
                done += read_some(r.as_mut(), &mut buf, 200);
            }
        }
        3 => {
            let a = draw(total);
            let bb = a + draw(total - a);
            let range = if chance(500) { Some((a, bb)) } else { None };
            let _ = request(b.clone().build(), range, u64::MAX, hold, chance(500));
            extra = (hold as i64 + 1) * (64 << 10);
        }
        _ => {
            // Small reads at random places
            let mut r = Box::pin(b.clone().build());
            for _ in 0..20 {
                r.as_mut().seek_from_start_pinned(draw(total));
                let n = draw(100_000);
                done += read_some(r.as_mut(), &mut buf, n);
            }
        }
    }
    let used = peak() - base;
    if used > bound + extra {
        viol(K::Mem, || format!("reading {done} of {total} bytes in way {way} needed {used} bytes of memory, more than {} bytes", bound + extra));
    }
    if done == total {
        probe("whole_archive_measured");
    }
    w(|w| w.states.insert(mix(way) ^ mix(64 - u64::from((used.max(1) as u64).leading_zeros()))));
    idle();
}

/// Big files, most of them sparse.
pub fn files(p: &Prof) {
    let bench = fsx::bench();
    let n = 1 + draw(4);
    let huge = chance(60);
    let mut names = 0;
    let mut total = 0;
    let dir = bench.dir.join("big");
    std::fs::create_dir_all(dir.join("sub")).expect("scratch tree");
    for i in 0..n {
        let path = if chance(300) { dir.join(format!("sub/f{i}")) } else { dir.join(format!("f{i}")) };
        names += 20;
        if chance(100) {
            let _ = std::os::unix::fs::symlink("t".repeat(1 + draw(4000) as usize), &path);
            continue;
        }
        let size = match draw(5) {
            0 => draw(100_000),
            1 => 0,
            _ if huge => 40_000_000 + draw(200_000_000),
            _ => 1_000_000 + draw(12_000_000),
        };
        let f = std::fs::File::create(&path).expect("scratch file");
        f.set_len(size).expect("scratch file");
        total += size;
    }
    ev("mem.files", n, total);
    fs_swarm(p);
    w(|w| {
        w.cfg.short_max = 100_000;
        w.cfg.short = w.cfg.short.min(300);
        w.cfg.fs_err = w.cfg.fs_err.min(3);
    });
    // Whatever is initialised lazily
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let _ = fsx::drive(b.add_directory_recursive(dir.join("sub"), None), 0, || {});
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let base = start_peak();
    let (r, _) = fsx::drive(b.add_directory_recursive(dir.clone(), Some("root")), 0, || {});
    let used = peak() - base;
    if used > BOUND {
        viol(K::Mem, || format!("a scan of {n} files with {total} bytes needed {used} bytes of memory"));
    }
    if matches!(r, Some(Ok(()))) && !aborted() {
        // tokio has a buffer of the size of the read
        let plan = Plan { names, total: b.size() };
        measure(&b, &plan, 256 << 10);
        probe("files_measured");
    }
    drop(b);
    bench.end();
}

/// The same things over and over.
pub fn plateau(p: &Prof) {
    w(|w| {
        w.chaos = false;
        w.src_limit = u64::MAX;
    });
    let sizes = || match draw(4) {
        0 => 0,
        1 => draw(200),
        2 => draw(20_000),
        _ => draw(60_000),
    };
    warm_up();
    let start = live();
    let (b, plan) = make(&sizes, false, 300);
    swarm(p);
    w(|w| {
        w.chaos = true;
        w.errors_on = true;
        w.cfg.short_max = w.cfg.short_max.max(200);
        w.cfg.err_budget = u64::MAX;
    });
    let total = plan.total;
    let mut buf = vec![0u8; 10_000];
    let mut main = Box::pin(b.clone().build());
    // A fixed program, so that every cycle could allocate the same
    let program: Vec<u64> = (0..1 + draw(4)).map(|_| draw(9)).collect();
    ev("mem.plateau", program.len() as u64, total);
    note(|| format!("program {program:?} over {total} bytes"));
    let (warm, cycles) = (40, 240);
    let mut early = 0;
    let mut late = i64::MAX;
    for c in 0..cycles {
        if aborted() {
            return;
        }
        for op in &program {
            w(|w| w.cur = if matches!(op, 2 | 5 | 6) { 2 } else { 1 });
            let at = draw(total + 1);
            let n = draw(9000);
            match op {
                0 => {
                    main.as_mut().seek_from_start_pinned(at);
                    read_some(main.as_mut(), &mut buf, n);
                }
                1 => {
                    main.as_mut().seek_from_start_pinned(at);
                }
                2 => {
                    let mut r = Box::pin((*main).clone());
                    read_some(r.as_mut(), &mut buf, n);
                }
                3 => {
                    let t = main.as_mut().take_pinned();
                    main = Box::pin(t);
                }
                4 => {
                    main.as_mut().seek_from_start_pinned(total - draw(total.min(300)));
                    read_some(main.as_mut(), &mut buf, 120);
                }
                5 => {
                    let mut s = Box::pin((*main).clone().into_bytes_stream());
                    stream_some(|cx| s.as_mut().poll_next(cx), n, 2);
                }
                6 => {
                    let _ = request((*main).clone(), Some((at.min(total - 1), total - 1)), n, 0, chance(500));
                }
                7 => {
                    // One stream over and over: its reader is moved out and back
                    let t = main.as_mut().take_pinned();
                    let mut s = t.into_bytes_stream();
                    {
                        let mut s = Pin::new(&mut s);
                        stream_some(|cx| s.as_mut().poll_next(cx), n, 0);
                    }
                    let r = Pin::new(&mut s).reader_pin_mut().take_pinned();
                    main = Box::pin(r);
                }
                _ => {
                    let t = main.as_mut().take_pinned();
                    if let Some(r) = request(t, Some((at.min(total - 1), total - 1)), n, 0, true) {
                        main = Box::pin(r);
                    } else {
                        viol(K::Mem, || "the reader was not returned".into());
                    }
                }
            }
        }
        w(|w| w.cur = 1);
        main.as_mut().seek_from_start_pinned(0);
        idle();
        let l = live();
        if c < warm {
            early = early.max(l);
        } else if c >= cycles - warm {
            late = late.min(l);
        }
    }
    // The least at the end against the most at the beginning
    if late > early + 600 {
        viol(K::Mem, || format!("memory grows: {early} bytes after {warm} repetitions, {late} after {cycles}"));
    }
    probe("plateau_measured");
    drop(main);
    drop(b);
    drop(buf);
    drop(program);
    idle();
    let end = live();
    if end > start + 2000 {
        viol(K::Mem, || format!("{} bytes stay allocated after everything was dropped", end - start));
    }
}
