//! Simulated data sources: every pending, short, failing or wrong answer is decided by the tape.

use crate::world::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::io::SeekFrom;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Content {
    Prf(u64),
    Byte(u8),
    /// Pseudo-random bytes full of ZIP signatures
    Pk(u64),
    /// Literal bytes
    Raw(Rc<[u8]>),
}

impl Content {
    pub fn fill(&self, off: u64, buf: &mut [u8]) {
        match *self {
            Content::Raw(ref r) => {
                for (i, b) in buf.iter_mut().enumerate() {
                    *b = usize::try_from(off).ok().and_then(|o| r.get(o + i)).copied().unwrap_or(0xEE);
                }
            }
            Content::Byte(b) => buf.fill(b),
            Content::Prf(seed) => {
                let mut i = 0usize;
                while i < buf.len() {
                    let o = off + i as u64;
                    let word = mix(seed ^ (o >> 3)).to_le_bytes();
                    let s = (o & 7) as usize;
                    let n = (8 - s).min(buf.len() - i);
                    buf[i..i + n].copy_from_slice(&word[s..s + n]);
                    i += n;
                }
            }
            Content::Pk(seed) => {
                const SIGS: [&[u8; 4]; 5] = [
                    b"PK\x03\x04",
                    b"PK\x07\x08",
                    b"PK\x01\x02",
                    b"PK\x06\x06",
                    b"PK\x05\x06",
                ];
                for (i, b) in buf.iter_mut().enumerate() {
                    let o = off + i as u64;
                    let sig = SIGS[(mix(seed ^ (o >> 2)) % 5) as usize];
                    *b = sig[(o & 3) as usize];
                }
            }
        }
    }

    pub fn bytes(&self, len: u64) -> Vec<u8> {
        let mut v = vec![0; len as usize];
        self.fill(0, &mut v);
        v
    }

    pub fn crc(&self, len: u64) -> u32 {
        if let (Content::Byte(b), true) = (self, len > 1 << 22) {
            // Doubling, so that huge contents take no time
            let mut total = crc32fast::Hasher::new();
            let mut unit = crc32fast::Hasher::new();
            unit.update(&[*b]);
            let mut left = len;
            while left > 0 {
                if left & 1 != 0 {
                    total.combine(&unit);
                }
                let same = unit.clone();
                left >>= 1;
                if left > 0 {
                    unit.combine(&same);
                }
            }
            return total.finalize();
        }
        let mut h = crc32fast::Hasher::new();
        let mut buf = vec![0u8; 65536.min(len as usize)];
        let mut o = 0;
        while o < len {
            let n = (len - o).min(buf.len() as u64) as usize;
            self.fill(o, &mut buf[..n]);
            h.update(&buf[..n]);
            o += n as u64;
        }
        h.finalize()
    }
}

pub struct SrcState {
    pub id: Cell<usize>,
    pub content: Content,
    pub reported: u64,
    pub actual: Cell<u64>,
    pub clamp_seek: bool,
    /// bit 0: open fails, bit 1: read fails, bit 2: seek fails (until errors are switched off)
    pub broken: Cell<u8>,
}

/// `P` is `()` for movable readers or `PhantomPinned` for readers that must stay pinned.
pub struct SimData<P> {
    pub s: Rc<SrcState>,
    _p: PhantomData<fn() -> P>,
}

impl<P> Clone for SimData<P> {
    fn clone(&self) -> Self {
        SimData {
            s: self.s.clone(),
            _p: PhantomData,
        }
    }
}

impl<P> SimData<P> {
    pub fn new(s: Rc<SrcState>) -> Self {
        SimData { s, _p: PhantomData }
    }
}

struct Slot {
    ready: bool,
    waker: Option<Waker>,
}

type Wait = Rc<RefCell<Slot>>;

fn begin_wait(cx: &Context<'_>) -> Wait {
    let slot = Rc::new(RefCell::new(Slot {
        ready: false,
        waker: Some(cx.waker().clone()),
    }));
    w(|w| {
        w.pends += 1;
        w.pend_budget = w.pend_budget.saturating_sub(1);
    });
    let (yield_now, chaos) = w(|w| (w.cfg.yield_now, w.chaos));
    if chaos && chance(yield_now) {
        fault(F::YieldNow);
        let mut s = slot.borrow_mut();
        s.ready = true;
        let waker = s.waker.take();
        drop(s);
        if let Some(wk) = waker {
            wk.wake();
        }
    } else {
        let delay = draw_delay();
        let weak = Rc::downgrade(&slot);
        after(
            delay,
            Box::new(move || {
                if let Some(slot) = weak.upgrade() {
                    let waker = {
                        let mut s = slot.borrow_mut();
                        s.ready = true;
                        s.waker.take()
                    };
                    ev("src.wake", 0, 0);
                    if let Some(wk) = waker {
                        wk.wake();
                    }
                }
            }),
        );
    }
    slot
}

/// Returns Pending while the wait is unfinished.
fn poll_wait(wait: &mut Option<Wait>, cx: &Context<'_>) -> Poll<bool> {
    if let Some(slot) = wait {
        let mut s = slot.borrow_mut();
        if s.ready {
            drop(s);
            *wait = None;
            return Poll::Ready(true);
        }
        s.waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    Poll::Ready(false)
}

fn want_pend() -> bool {
    let p = w(|w| {
        if w.chaos && w.pend_budget > 0 {
            w.cfg.pend
        } else {
            0
        }
    });
    chance(p)
}

fn make_error() -> io::Error {
    use io::ErrorKind as E;
    let kind = pick(&[
        E::Other,
        E::NotFound,
        E::PermissionDenied,
        E::Interrupted,
        E::UnexpectedEof,
        E::InvalidInput,
        E::TimedOut,
        E::InvalidData,
    ]);
    w(|w| {
        w.poll_errs += 1;
        w.cfg.err_budget = w.cfg.err_budget.saturating_sub(1);
    });
    io::Error::new(kind, "injected source failure")
}

/// Decides whether the operation fails. `bit` selects the persistent failure flag.
fn want_error(s: &SrcState, bit: u8, f: F) -> Option<io::Error> {
    let (on, rate, persistent) = w(|w| {
        (
            w.chaos && w.errors_on,
            if w.cfg.err_budget == 0 {
                0
            } else {
                match bit {
                    1 => w.cfg.err_open,
                    2 => w.cfg.err_read,
                    _ => w.cfg.err_seek,
                }
            },
            w.cfg.persistent,
        )
    });
    if !on {
        return None;
    }
    if s.broken.get() & bit != 0 {
        fault(f);
        return Some(make_error());
    }
    if chance(rate) {
        fault(f);
        if chance(persistent) {
            fault(F::Persistent);
            s.broken.set(s.broken.get() | bit);
        }
        return Some(make_error());
    }
    None
}

/// Registration of something open, released on drop.
struct Live {
    entry: usize,
    token: u64,
}

impl Live {
    fn new(entry: usize) -> Self {
        let token = w(|w| {
            w.next_token += 1;
            let t = w.next_token;
            let c = w.cur;
            w.live.push((c, entry, t));
            t
        });
        Live { entry, token }
    }
    fn owner(&self) -> usize {
        w(|w| {
            w.live
                .iter()
                .find(|x| x.2 == self.token)
                .map_or(usize::MAX, |x| x.0)
        })
    }
}

impl Drop for Live {
    fn drop(&mut self) {
        ev("src.close", self.entry as u64, 0);
        w(|w| w.live.retain(|x| x.2 != self.token));
    }
}

/// Detects moves of values that were already polled in place.
#[derive(Default)]
struct Place(Cell<usize>);

impl Place {
    fn check<T>(&self, this: *const T, pinned: bool, what: &'static str) {
        let a = this as usize;
        if self.0.get() == 0 {
            self.0.set(a);
        } else if pinned && self.0.get() != a {
            viol(K::Moved, || format!("a pinned {what} was moved between polls"));
            self.0.set(a);
        }
    }
}

pub struct SimFuture<P> {
    s: Rc<SrcState>,
    wait: Option<Wait>,
    started: bool,
    done: bool,
    live: Option<Live>,
    place: Place,
    _p: PhantomData<P>,
}

pub struct SimReader<P> {
    s: Rc<SrcState>,
    pos: u64,
    wait: Option<Wait>,
    seek: Option<u64>,
    seek_polled: bool,
    live: Live,
    owner: usize,
    place: Place,
    eof_seen: bool,
    _p: PhantomData<P>,
}

impl<P: Mark> zippity::EntryData for SimData<P> {
    type Reader = SimReader<P>;
    type Future = SimFuture<P>;

    fn get_reader(&self) -> SimFuture<P> {
        let id = self.s.id.get();
        src_op();
        ev("src.open", id as u64, 0);
        let two = w(|w| {
            let c = w.cur;
            w.opens.push((c, id));
            w.live.iter().any(|x| x.0 == c)
        });
        if two {
            viol(K::TwoOpen, || {
                format!("source of entry {id} was opened while another source of the same reader is open")
            });
        }
        SimFuture {
            s: self.s.clone(),
            wait: None,
            started: false,
            done: false,
            live: Some(Live::new(id)),
            place: Place::default(),
            _p: PhantomData,
        }
    }

    fn size(&self) -> u64 {
        self.s.reported
    }
}

/// Selects whether readers and futures are movable (`()`) or not (`PhantomPinned`).
pub trait Mark: 'static {
    const PINNED: bool;
}
impl Mark for () {
    const PINNED: bool = false;
}
impl Mark for std::marker::PhantomPinned {
    const PINNED: bool = true;
}

impl<P: Mark> Future for SimFuture<P> {
    type Output = io::Result<SimReader<P>>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        src_op();
        // SAFETY: nothing is moved out of the pinned value in a way that depends on its address.
        let me = unsafe { self.get_unchecked_mut() };
        me.place.check(me as *const Self, P::PINNED, "open future");
        if me.done {
            viol(K::Proto, || {
                format!("the open future of entry {} was polled after it completed", me.s.id.get())
            });
            return Poll::Ready(Err(io::Error::other("polled after completion")));
        }
        match poll_wait(&mut me.wait, cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(_) => {}
        }
        if !me.started {
            me.started = true;
            if want_pend() {
                fault(F::PendOpen);
                ev("src.open.pend", me.s.id.get() as u64, 0);
                me.wait = Some(begin_wait(cx));
                return Poll::Pending;
            }
        }
        me.done = true;
        if let Some(e) = want_error(&me.s, 1, F::ErrOpen) {
            ev("src.open.err", me.s.id.get() as u64, 0);
            return Poll::Ready(Err(e));
        }
        ev("src.opened", me.s.id.get() as u64, 0);
        let live = me.live.take().expect("only taken once");
        let owner = live.owner();
        Poll::Ready(Ok(SimReader {
            s: me.s.clone(),
            pos: 0,
            wait: None,
            seek: None,
            seek_polled: false,
            live,
            owner,
            place: Place::default(),
            eof_seen: false,
            _p: PhantomData,
        }))
    }
}

impl<P> SimReader<P> {
    fn check_owner(&self) {
        let cur = w(|w| w.cur);
        if cur != self.owner {
            viol(K::Proto, || {
                format!(
                    "source of entry {} opened for reader {} is used by reader {cur}",
                    self.s.id.get(), self.owner
                )
            });
        }
    }
}

impl<P: Mark> AsyncRead for SimReader<P> {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        src_op();
        // SAFETY: nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        me.place.check(me as *const Self, P::PINNED, "reader");
        me.check_owner();
        if me.seek.is_some() {
            viol(K::Proto, || {
                format!("entry {} was read while a seek is in progress", me.s.id.get())
            });
            return Poll::Ready(Err(io::Error::other("read during seek")));
        }
        match poll_wait(&mut me.wait, cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(true) => {}
            Poll::Ready(false) => {
                if want_pend() {
                    fault(F::PendRead);
                    ev("src.read.pend", me.s.id.get() as u64, me.pos);
                    me.wait = Some(begin_wait(cx));
                    return Poll::Pending;
                }
            }
        }
        if let Some(e) = want_error(&me.s, 2, F::ErrRead) {
            ev("src.read.err", me.s.id.get() as u64, me.pos);
            return Poll::Ready(Err(e));
        }
        let avail = me.s.actual.get().saturating_sub(me.pos);
        let mut n = avail.min(buf.remaining() as u64);
        if n == 0 {
            me.eof_seen = true;
            ev("src.eof", me.s.id.get() as u64, me.pos);
            return Poll::Ready(Ok(()));
        }
        let (short, short_max) = w(|w| (if w.chaos { w.cfg.short } else { 0 }, w.cfg.short_max));
        if n > 1 && chance(short) {
            fault(F::ShortRead);
            n = n.min(1 + draw(short_max.max(1)));
        }
        let n = n as usize;
        let dst = buf.initialize_unfilled_to(n);
        me.s.content.fill(me.pos, dst);
        buf.advance(n);
        ev("src.read", me.s.id.get() as u64, n as u64);
        w(|w| w.src_bytes += n as u64);
        me.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl<P: Mark> AsyncSeek for SimReader<P> {
    fn start_seek(self: Pin<&mut Self>, pos: SeekFrom) -> io::Result<()> {
        src_op();
        // SAFETY: nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        me.place.check(me as *const Self, P::PINNED, "reader");
        me.check_owner();
        if me.seek.is_some() || me.wait.is_some() {
            viol(K::Proto, || {
                format!("seek of entry {} started while another operation is in progress", me.s.id.get())
            });
            return Err(io::Error::other("operation in progress"));
        }
        let rate = w(|w| w.cfg.err_seek);
        if rate > 0 && w(|w| w.start_seek_errors) && chance(300) {
            if let Some(e) = want_error(&me.s, 4, F::ErrStartSeek) {
                ev("src.startseek.err", me.s.id.get() as u64, 0);
                return Err(e);
            }
        }
        let target = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(d) => me.pos.checked_add_signed(d),
            SeekFrom::End(d) => me.s.actual.get().checked_add_signed(d),
        };
        let Some(target) = target else {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative seek"));
        };
        ev("src.seek", me.s.id.get() as u64, target);
        me.seek = Some(target);
        me.seek_polled = false;
        Ok(())
    }

    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        src_op();
        // SAFETY: nothing is moved out of the pinned value.
        let me = unsafe { self.get_unchecked_mut() };
        me.place.check(me as *const Self, P::PINNED, "reader");
        me.check_owner();
        match poll_wait(&mut me.wait, cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(_) => {}
        }
        let Some(target) = me.seek else {
            return Poll::Ready(Ok(me.pos));
        };
        if !me.seek_polled {
            me.seek_polled = true;
            if want_pend() {
                fault(F::PendSeek);
                ev("src.seek.pend", me.s.id.get() as u64, target);
                me.wait = Some(begin_wait(cx));
                return Poll::Pending;
            }
        }
        me.seek = None;
        if let Some(e) = want_error(&me.s, 4, F::ErrSeek) {
            ev("src.seek.err", me.s.id.get() as u64, target);
            return Poll::Ready(Err(e));
        }
        let actual = me.s.actual.get();
        me.pos = if me.s.clamp_seek && target > actual {
            fault(F::ClampedSeek);
            actual
        } else {
            target
        };
        ev("src.seeked", me.s.id.get() as u64, me.pos);
        Poll::Ready(Ok(me.pos))
    }
}
