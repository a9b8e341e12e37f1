//! A simulated client of one Reader (or BytesStream) with its reference model.

use crate::spec::*;
use crate::world::*;
use futures_core::Stream;
use std::collections::HashMap;
use std::io::SeekFrom;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{BytesStream, Reader};

pub enum Handle<D: Src> {
    Rd(Pin<Box<Reader<D>>>),
    St(Pin<Box<BytesStream<D>>>),
    Gone,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Out {
    Pending,
    Bytes(usize),
    Eof,
    Err,
    Dead,
}

pub struct Client<D: Src> {
    pub id: usize,
    pub h: Handle<D>,
    pub rf: Rc<Ref>,
    /// Expected value of tell()
    pub pos: u64,
    pub pass_from: u64,
    /// An error happened since the last seek
    pub poisoned: bool,
    pub owed_err: bool,
    pub known: Vec<Option<u32>>,
    pub pass_opens: Vec<u32>,
    pub pass_clean: bool,
    pub flag: Arc<WakeFlag>,
    pub waker: Waker,
    pub pending: bool,
    pub ops: u64,
    pub total: u64,
    /// data sources may legitimately fail for reasons the simulator did not inject in this poll
    pub lenient: bool,
    buf: Vec<u8>,
    /// Chunks kept by a slow consumer, with what was in them
    held: Vec<(bytes::Bytes, Vec<u8>)>,
}

pub fn fresh_id() -> usize {
    w(|w| {
        w.next_token += 1;
        w.next_token as usize
    })
}

impl<D: Src> Client<D> {
    pub fn new(reader: Reader<D>, rf: Rc<Ref>) -> Self {
        let id = fresh_id();
        let flag = WakeFlag::new();
        let n = rf.specs.len();
        let known = rf.specs.iter().map(|s| s.supplied).collect();
        let mut c = Client {
            id,
            total: reader.size(),
            h: Handle::Rd(Box::pin(reader)),
            rf,
            pos: 0,
            pass_from: 0,
            poisoned: false,
            owed_err: false,
            known,
            pass_opens: vec![0; n],
            pass_clean: true,
            waker: waker(&flag),
            flag,
            pending: false,
            ops: 0,
            lenient: false,
            buf: Vec::new(),
            held: Vec::new(),
        };
        c.check_all();
        c
    }

    /// A client around a reader that already has a history.
    pub fn adopt(reader: Reader<D>, rf: Rc<Ref>, pos: u64, known: Vec<Option<u32>>, total: u64) -> Self {
        let id = fresh_id();
        let flag = WakeFlag::new();
        let n = rf.specs.len();
        let mut c = Client {
            id,
            total,
            h: Handle::Rd(Box::pin(reader)),
            rf,
            pos,
            pass_from: pos,
            poisoned: false,
            owed_err: false,
            known,
            pass_opens: vec![0; n],
            pass_clean: true,
            waker: waker(&flag),
            flag,
            pending: false,
            ops: 0,
            lenient: false,
            buf: Vec::new(),
            held: Vec::new(),
        };
        c.check_all();
        c
    }

    /// A model of a reader that somebody else owns.
    pub fn ghost(id: usize, rf: Rc<Ref>, pos: u64) -> Self {
        let flag = WakeFlag::new();
        let n = rf.specs.len();
        Client {
            id,
            total: rf.len(),
            h: Handle::Gone,
            known: rf.specs.iter().map(|s| s.supplied).collect(),
            rf,
            pos,
            pass_from: pos,
            poisoned: false,
            owed_err: false,
            pass_opens: vec![0; n],
            pass_clean: true,
            waker: waker(&flag),
            flag,
            pending: false,
            ops: 0,
            lenient: false,
            buf: Vec::new(),
            held: Vec::new(),
        }
    }

    pub fn check_one_open(&self) {
        if D::SIM {
            let live = self.live_entries();
            if live.len() > 1 {
                let who = self.who();
                viol(K::TwoOpen, || format!("{who}: {} sources are open at once", live.len()));
            }
        }
    }

    pub fn reader(&self) -> Option<&Reader<D>> {
        match &self.h {
            Handle::Rd(r) => Some(r),
            Handle::St(s) => Some(s.reader_ref()),
            Handle::Gone => None,
        }
    }

    pub fn reader_pin(&mut self) -> Option<Pin<&mut Reader<D>>> {
        match &mut self.h {
            Handle::Rd(r) => Some(r.as_mut()),
            Handle::St(s) => Some(s.as_mut().reader_pin_mut()),
            Handle::Gone => None,
        }
    }

    pub fn enter(&self) {
        let id = self.id;
        w(|w| w.cur = id);
    }

    fn who(&self) -> String {
        format!("reader {} at {}", self.id, self.pos)
    }

    pub fn new_pass(&mut self) {
        let id = self.id;
        w(|w| {
            *w.gens.entry(id).or_insert(0) += 1;
            w.fs_errs.remove(&id);
        });
        self.pass_from = self.pos;
        self.poisoned = false;
        self.owed_err = false;
        self.pass_opens.fill(0);
        self.pass_clean = true;
        self.pending = false;
    }

    /// Position, size, CRCs and open sources.
    pub fn check_all(&mut self) {
        self.check_tell();
        self.check_crcs();
    }

    pub fn check_tell(&mut self) {
        let Some(r) = self.reader() else { return };
        let (tell, size) = (r.tell(), r.size());
        if tell != self.pos {
            let who = self.who();
            viol(K::Tell, || format!("{who}: tell() returns {tell}"));
            // Continue from where the reader thinks it is, other checks stay meaningful.
        }
        if size != self.total {
            let who = self.who();
            let total = self.total;
            viol(K::Size, || format!("{who}: size() returns {size} instead of {total}"));
        }
    }

    pub fn check_crcs(&mut self) {
        let Some(r) = self.reader() else { return };
        let rf = self.rf.clone();
        let mut seen: Vec<Option<u32>> = vec![None; self.known.len()];
        let mut next = 0;
        for (name, crc) in r.crc32s() {
            // Entries are reported in the order of the archive
            let found = (next..rf.specs.len()).find(|&i| rf.specs[i].name == name);
            let Some(i) = found else {
                let known = rf.by_name.contains_key(name);
                viol(K::CrcWrong, || {
                    format!("crc32s() reports entry {:?}, {}", shorten(name), if known { "twice or out of order" } else { "which does not exist" })
                });
                continue;
            };
            next = i + 1;
            seen[i] = Some(crc);
            let s = &rf.specs[i];
            let right = match s.bad {
                Some(Bad::Crc) => s.supplied.is_none_or(|c| c == crc),
                Some(_) => true,
                None => crc == s.truth,
            };
            if !right {
                let truth = s.truth;
                viol(
                    if s.bad == Some(Bad::Crc) { K::WrongCrc } else { K::CrcWrong },
                    || format!("crc32s() reports {crc:08x} for entry {i}, true is {truth:08x}"),
                );
            }
        }
        for i in 0..self.known.len() {
            if self.known[i].is_some() && seen[i].is_none() {
                viol(K::CrcLost, || format!("the known CRC of entry {i} is not reported any more"));
            }
        }
        self.known = seen;
    }

    fn live_entries(&self) -> Vec<usize> {
        let id = self.id;
        w(|w| w.live.iter().filter(|x| x.0 == id).map(|x| x.1).collect())
    }

    pub fn check_released(&self, when: &str) {
        if !D::SIM {
            return;
        }
        let l = self.live_entries();
        if !l.is_empty() {
            let id = self.id;
            viol(K::Leak, || format!("reader {id} still has source of entry {} open {when}", l[0]));
        }
    }

    /// Sources that may be open when the next byte is at `p`.
    fn justified(&self, i: usize, lo: u64, hi: u64) -> bool {
        let e = &self.rf.lay.ents[i];
        // `lo..hi` is what is being read; touching an area counts.
        (lo <= e.end && hi >= e.data_off) || (lo <= e.cd_end && hi >= e.cd_off)
    }

    /// The same, but strict: what a read of `lo..hi` may open.
    pub fn may_open(&self, i: usize, lo: u64, hi: u64, crc_known: bool) -> bool {
        let e = &self.rf.lay.ents[i];
        if self.rf.specs[i].size == 0 {
            return false;
        }
        let meets = |a: u64, b: u64| lo < b && hi > a;
        meets(e.data_off, e.dd_off)
            || (!crc_known && (meets(e.dd_off, e.end) || meets(e.cd_off, e.cd_end)))
    }

    /// Is this an error for which there is a cause?
    pub fn error_has_cause(&self, errs: u64) -> bool {
        if errs > 0 || self.poisoned || self.owed_err || self.lenient {
            return true;
        }
        let p = self.pos;
        self.rf.specs.iter().enumerate().any(|(i, s)| {
            let e = &self.rf.lay.ents[i];
            match s.bad {
                None => false,
                Some(Bad::Crc) => p >= e.data_off && p <= e.dd_off,
                Some(_) => p >= e.data_off && p <= e.end || p >= e.cd_off && p <= e.cd_end,
            }
        })
    }

    /// Checks bytes delivered at the current position.
    pub fn check_bytes(&mut self, got: &[u8]) {
        let from = self.pos;
        let to = from + got.len() as u64;
        let rf = self.rf.clone();
        if to > rf.len() {
            let who = self.who();
            let len = rf.len();
            viol(K::PastEnd, || format!("{who}: {} bytes delivered, archive has only {len}", got.len()));
            return;
        }
        let mut checks: Vec<(u64, u64)> = vec![(from, to)];
        if rf.has_bad {
            for (i, s) in rf.specs.iter().enumerate() {
                let e = &rf.lay.ents[i];
                match s.bad {
                    None => {}
                    Some(bad) => {
                        if self.pass_from <= e.data_off && to > e.dd_off && from < e.cd_off && bad != Bad::Dyn && e.dd_off < rf.lay.cd_off {
                            let k = if bad == Bad::Crc { K::WrongCrc } else { K::WrongLen };
                            let who = self.who();
                            viol(k, || {
                                format!("{who}: pass from the beginning of entry {i} ({bad:?}) delivered bytes after its data")
                            });
                        }
                        if let Bad::Len(a) = bad {
                            let lo = e.data_off + a;
                            if a < s.size && to > lo && from < e.dd_off && to > from.max(lo) {
                                let who = self.who();
                                viol(K::WrongLen, || {
                                    format!("{who}: bytes of entry {i} past the end of its source were made up")
                                });
                            }
                        }
                        let masked = bad != Bad::Crc && self.pass_from > e.data_off;
                        if masked {
                            for o in [e.dd_crc_off, Some(e.cd_crc_off)].into_iter().flatten() {
                                checks = checks
                                    .into_iter()
                                    .flat_map(|(a, b)| {
                                        // remove [o, o + 4)
                                        let l = (a, b.min(o));
                                        let r = (a.max(o + 4), b);
                                        [l, r].into_iter().filter(|(a, b)| a < b)
                                    })
                                    .collect();
                            }
                        }
                    }
                }
            }
        }
        for (a, b) in checks {
            let g = &got[(a - from) as usize..(b - from) as usize];
            let x = &*rf.body.slice(a, b);
            if g != x {
                let o = g.iter().zip(x).position(|(p, q)| p != q).unwrap_or(0);
                let who = self.who();
                let (p, q) = (g[o], x[o]);
                viol(K::Bytes, || {
                    format!("{who}: byte {} is {p:#04x} instead of {q:#04x} (zone {})", a + o as u64, rf.zone(a + o as u64))
                });
                return;
            }
        }
    }

    /// Whatever others did since, nothing has changed here.
    fn check_idle(&mut self) {
        if !self.rf.cheap_crcs || w(|w| std::mem::replace(&mut w.last_client, self.id)) == self.id {
            return;
        }
        let Some(r) = self.reader() else { return };
        let mut n = 0;
        let mut same = r.tell() == self.pos && r.size() == self.total;
        for (name, crc) in r.crc32s() {
            n += 1;
            same &= self.known.get(self.rf.by_name.get(name).copied().unwrap_or(usize::MAX)).is_some_and(|k| *k == Some(crc));
        }
        same &= n == self.known.iter().flatten().count();
        if !same {
            let who = self.who();
            viol(K::Idle, || format!("{who}: position, size or CRCs changed while only other readers were used"));
        }
    }

    /// One poll of a read. `cap` is the room in the buffer, `prefill` what is already in it.
    pub fn poll_read(&mut self, cap: usize, prefill: usize, uninit: bool) -> Out {
        self.enter();
        self.check_idle();
        if chance(w(|w| w.cfg.waker_swap)) {
            fault(F::WakerSwap);
            self.flag = WakeFlag::new();
            self.waker = waker(&self.flag);
        }
        self.flag.clear();
        self.ops += 1;
        let id = self.id;
        let some_room = cap > 0 || matches!(self.h, Handle::St(_));
        // Failures of operations which ended since the last poll have to be reported now
        let late = w(|w| {
            w.src_ops_poll = 0;
            w.poll_errs = 0;
            w.polls += 1;
            w.opens.clear();
            if some_room { w.fs_errs.remove(&id).unwrap_or(0) } else { 0 }
        });
        if late > 0 {
            self.owed_err = true;
        }
        let live_before = if D::SIM { self.live_entries() } else { Vec::new() };
        let waker = self.waker.clone();
        let mut cx = Context::from_waker(&waker);
        let was_pending = self.pending;
        let zone = self.rf.zone(self.pos);
        // The result of the call as (result, new bytes)
        let mut chunk: Option<bytes::Bytes> = None;
        let mut buf = std::mem::take(&mut self.buf);
        let res: Poll<std::io::Result<Option<usize>>>;
        let mut leaked = 0usize; // bytes written together with Pending or an error
        match &mut self.h {
            Handle::Gone => return Out::Dead,
            Handle::St(s) => {
                res = match s.as_mut().poll_next(&mut cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(None) => Poll::Ready(Ok(None)),
                    Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
                    Poll::Ready(Some(Ok(b))) => {
                        let n = b.len();
                        chunk = Some(b);
                        Poll::Ready(Ok(Some(n)))
                    }
                };
            }
            Handle::Rd(r) => {
                const PAT: u8 = 0xA5;
                let want = prefill + cap;
                let (r1, filled);
                if uninit {
                    buf.clear();
                    buf.reserve(want);
                    {
                        let spare: &mut [MaybeUninit<u8>] = &mut buf.spare_capacity_mut()[..want];
                        let mut rb = ReadBuf::uninit(spare);
                        for _ in 0..prefill {
                            rb.put_slice(&[PAT]);
                        }
                        r1 = r.as_mut().poll_read(&mut cx, &mut rb);
                        filled = rb.filled().len();
                    }
                    // SAFETY: ReadBuf guarantees that the filled part is initialised.
                    unsafe { buf.set_len(filled) };
                } else {
                    buf.resize(want, 0);
                    buf[..prefill].fill(PAT);
                    let mut rb = ReadBuf::new(&mut buf[..want]);
                    rb.advance(prefill);
                    r1 = r.as_mut().poll_read(&mut cx, &mut rb);
                    filled = rb.filled().len();
                }
                if filled < prefill || buf[..prefill].iter().any(|b| *b != PAT) {
                    let id = self.id;
                    viol(K::Clobber, || format!("reader {id}: content already in the buffer was changed"));
                }
                let n = filled.saturating_sub(prefill);
                res = match r1 {
                    Poll::Pending => {
                        leaked = n;
                        Poll::Pending
                    }
                    Poll::Ready(Err(e)) => {
                        leaked = n;
                        Poll::Ready(Err(e))
                    }
                    Poll::Ready(Ok(())) => Poll::Ready(Ok(Some(n))),
                };
            }
        }
        let is_stream = matches!(self.h, Handle::St(_));
        let (errs, pinned_ops) = w(|w| (w.poll_errs + late, w.src_ops_poll));
        let before_pos = self.pos;

        // Which sources were opened, and may they be?
        if D::SIM {
            let opens: Vec<(usize, usize)> = w(|w| std::mem::take(&mut w.opens));
            let cap_end = if is_stream { before_pos.saturating_add(1 << 20) } else { before_pos.saturating_add(cap as u64) };
            for (_, i) in opens {
                self.pass_opens[i] += 1;
                let known = self.known[i].is_some();
                if !self.may_open(i, before_pos, cap_end, known) && (cap > 0 || is_stream) {
                    let who = self.who();
                    viol(K::OpenUnjust, || {
                        format!("{who}: read of {cap} bytes opened entry {i}, which it does not need")
                    });
                }
                if cap == 0 && !is_stream {
                    let who = self.who();
                    viol(K::OpenUnjust, || format!("{who}: read into an empty buffer opened entry {i}"));
                }
                if self.pass_opens[i] > 1 && self.pass_clean && self.pass_from == 0 && self.rf.specs[i].bad.is_none() {
                    let who = self.who();
                    viol(K::OpenTwice, || format!("{who}: entry {i} was opened again in one sequential pass"));
                }
            }
        }

        let out = match res {
            Poll::Pending => {
                if leaked > 0 {
                    let who = self.who();
                    viol(K::PendBytes, || format!("{who}: {leaked} bytes delivered together with pending"));
                }
                self.pending = true;
                Out::Pending
            }
            Poll::Ready(Err(e)) => {
                self.pending = false;
                if leaked > 0 {
                    let who = self.who();
                    viol(K::ErrBytes, || format!("{who}: {leaked} bytes delivered together with an error are lost"));
                }
                if !self.error_has_cause(errs) {
                    let who = self.who();
                    viol(K::UnexpErr, || format!("{who}: read failed without a cause: {e}"));
                }
                note(|| format!("read error: {e}"));
                self.poisoned = true;
                self.owed_err = false;
                self.pass_clean = false;
                Out::Err
            }
            Poll::Ready(Ok(n)) => {
                self.pending = false;
                let n_bytes = n.unwrap_or(0);
                let got: &[u8] = match &chunk {
                    Some(c) => c,
                    None => {
                        if is_stream {
                            &[]
                        } else {
                            &buf[prefill..prefill + n_bytes]
                        }
                    }
                };
                if is_stream && n == Some(0) {
                    viol(K::StreamItem, || "the stream yielded an empty chunk".into());
                }
                if self.owed_err {
                    let who = self.who();
                    viol(K::Swallow, || format!("{who}: a source failure was not reported"));
                    self.owed_err = false;
                }
                if errs > 0 {
                    self.owed_err = true;
                    self.pass_clean = false;
                }
                if n_bytes == 0 {
                    if (cap > 0 || is_stream) && self.pos < self.rf.len() {
                        let who = self.who();
                        let len = self.rf.len();
                        viol(K::EarlyEof, || format!("{who}: end of file reported before {len}"));
                    }
                    if cap > 0 || is_stream {
                        self.at_eof();
                        Out::Eof
                    } else {
                        Out::Bytes(0)
                    }
                } else {
                    let got = got.to_vec();
                    self.check_bytes(&got);
                    if let Some(c) = chunk {
                        if chance(40) && self.held.len() < 6 {
                            fault(F::SlowConsumer);
                            self.held.push((c, got));
                        }
                        self.check_held();
                    }
                    self.pos += n_bytes as u64;
                    w(|w| w.bytes_out += n_bytes as u64);
                    Out::Bytes(n_bytes)
                }
            }
        };
        self.buf = buf;
        ev(
            match out {
                Out::Pending => "rd.pend",
                Out::Bytes(_) => "rd.ok",
                Out::Eof => "rd.eof",
                Out::Err => "rd.err",
                Out::Dead => "rd.dead",
            },
            before_pos,
            self.pos - before_pos,
        );
        if D::SIM {
            let live = self.live_entries();
            if live.len() > 1 {
                let who = self.who();
                viol(K::TwoOpen, || format!("{who}: {} sources are open at once", live.len()));
            }
            if !self.poisoned && matches!(out, Out::Bytes(_) | Out::Eof) {
                for i in &live {
                    if !self.justified(*i, self.pos, self.pos) {
                        let who = self.who();
                        viol(K::Leak, || format!("{who}: the source of entry {i} is still open"));
                    }
                }
            }
            let st = mix(zone)
                ^ mix(100 + self.rf.zone(self.pos))
                ^ mix(200 + match out {
                    Out::Pending => 0,
                    Out::Bytes(n) => 1 + u64::from(n == cap),
                    Out::Eof => 3,
                    Out::Err => 4,
                    Out::Dead => 5,
                })
                ^ mix(300 + u64::from(was_pending) * 2 + u64::from(self.poisoned))
                ^ mix(400 + live_before.len() as u64 * 4 + live.len() as u64)
                ^ mix(500 + pinned_ops.min(3))
                ^ mix(600 + u64::from(self.rf.local_index(before_pos).is_some_and(|i| self.known[i].is_some())));
            w(|w| {
                if w.states.len() < 20_000 {
                    w.states.insert(st);
                }
            });
        } else {
            let kind = match out {
                Out::Pending => 0,
                Out::Bytes(n) => 1 + u64::from(n == cap),
                Out::Eof => 3,
                Out::Err => 4,
                Out::Dead => 5,
            };
            let st = mix(zone) ^ mix(100 + self.rf.zone(self.pos)) ^ mix(200 + kind) ^ mix(300 + u64::from(was_pending) * 2 + u64::from(self.poisoned)) ^ mix(700);
            w(|w| {
                if w.states.len() < 20_000 {
                    w.states.insert(st);
                }
            });
        }
        self.check_tell();
        if self.rf.cheap_crcs || self.ops % (16 + self.known.len() as u64 / 4) == 0 || matches!(out, Out::Eof | Out::Err) {
            self.check_crcs();
        }
        out
    }

    /// Nothing may write to chunks that were handed out.
    pub fn check_held(&self) {
        if self.held.iter().any(|(c, v)| c[..] != v[..]) {
            let who = self.who();
            viol(K::StreamItem, || format!("{who}: a chunk that was yielded before has changed"));
        }
    }

    fn at_eof(&mut self) {
        if self.pass_from == 0 && self.pass_clean && self.pos == self.rf.len() {
            probe("complete_pass");
            self.check_crcs();
            for (i, s) in self.rf.specs.iter().enumerate() {
                if s.bad.is_none() && self.known[i].is_none() {
                    viol(K::CrcMissing, || format!("the CRC of entry {i} is not known after a complete read"));
                }
                if D::SIM && s.bad.is_none() {
                    let want = u32::from(s.size > 0);
                    if self.pass_opens[i] != want {
                        let n = self.pass_opens[i];
                        viol(K::OpenTwice, || {
                            format!("entry {i} of {} B was opened {n} times in a complete sequential read", s.size)
                        });
                    }
                }
            }
        }
    }

    /// Lets simulated time pass until the reader is woken.
    pub fn wait(&mut self) -> bool {
        while !self.flag.is() {
            if !step_event() {
                let who = self.who();
                viol(K::Stall, || format!("{who}: read is pending, nothing will ever wake it"));
                return false;
            }
        }
        true
    }

    /// Seek in one of the possible ways. Returns false if the seek was refused.
    pub fn seek(&mut self, how: u64, target: u64) {
        self.enter();
        let size = self.total;
        ev("seek", how, target);
        if self.pending {
            fault(F::SeekWhilePending);
        }
        let waker = self.waker.clone();
        let mut cx = Context::from_waker(&waker);
        let pos = self.pos;
        let diff = |from: u64| -> Option<i64> {
            if target >= from {
                i64::try_from(target - from).ok()
            } else {
                i64::try_from(from - target).ok().map(|d| -d)
            }
        };
        let arg = match how {
            1 => Some(SeekFrom::Start(target)),
            2 => diff(pos).map(SeekFrom::Current),
            3 => diff(size).map(SeekFrom::End),
            _ => None,
        };
        if how == 5 {
            // unpin through take_pinned
            if let Some(mut r) = self.take_reader() {
                r.seek_from_start_mut(target);
                self.h = Handle::Rd(Box::pin(r));
            }
        } else if how == 6 {
            match std::mem::replace(&mut self.h, Handle::Gone) {
                Handle::Rd(r) => match D::unpin_reader(r) {
                    Ok(mut r) => {
                        r.seek_from_start_mut(target);
                        self.h = Handle::Rd(Box::pin(r));
                    }
                    Err(mut r) => {
                        r.as_mut().seek_from_start_pinned(target);
                        self.h = Handle::Rd(r);
                    }
                },
                Handle::St(s) => match D::unpin_stream(s) {
                    Ok(mut s) => {
                        s.reader_mut().seek_from_start_mut(target);
                        self.h = Handle::St(Box::pin(s));
                    }
                    Err(mut s) => {
                        s.as_mut().reader_pin_mut().seek_from_start_pinned(target);
                        self.h = Handle::St(s);
                    }
                },
                Handle::Gone => {}
            }
        } else if let Some(arg) = arg {
            let Some(mut r) = self.reader_pin() else { return };
            match r.as_mut().start_seek(arg) {
                Err(e) => {
                    let who = self.who();
                    viol(K::SeekErr, || format!("{who}: {arg:?} failed: {e}"));
                    return;
                }
                Ok(()) => {
                    let mut res = r.as_mut().poll_complete(&mut cx);
                    let mut guard = 0;
                    while res.is_pending() {
                        guard += 1;
                        if guard > 10_000 || !step_event() {
                            let who = self.who();
                            viol(K::Stall, || format!("{who}: seek never completes"));
                            return;
                        }
                        let Some(mut r) = self.reader_pin() else { return };
                        res = r.as_mut().poll_complete(&mut cx);
                    }
                    match res {
                        Poll::Ready(Ok(p)) if p == target => {}
                        other => {
                            let who = self.who();
                            viol(K::SeekRes, || format!("{who}: {arg:?} to {target} resulted in {other:?}"));
                        }
                    }
                }
            }
        } else if let Some(r) = self.reader_pin() {
            r.seek_from_start_pinned(target);
        }
        self.pos = target;
        self.new_pass();
        self.check_all();
        if D::SIM {
            for i in self.live_entries() {
                if !self.justified(i, target, target) {
                    let id = self.id;
                    viol(K::Leak, || format!("reader {id}: source of entry {i} is open after a seek to {target}"));
                }
            }
        }
    }

    /// Seeks before the start have to fail without any effect.
    pub fn seek_before_start(&mut self, how: u64, extra: u64) {
        self.enter();
        let base = if how == 0 { self.pos } else { self.total };
        let Some(d) = i64::try_from(base).ok().and_then(|b| b.checked_add(1 + extra as i64)) else {
            return;
        };
        let arg = if how == 0 { SeekFrom::Current(-d) } else { SeekFrom::End(-d) };
        ev("seek.bad", how, extra);
        let Some(r) = self.reader_pin() else { return };
        match r.start_seek(arg) {
            Err(_) => {}
            Ok(()) => {
                let who = self.who();
                viol(K::SeekErr, || format!("{who}: {arg:?} (before start) succeeded"));
            }
        }
        self.check_all();
    }

    /// Takes the reader out by take_pinned. What stays behind is checked to be an empty archive.
    pub fn take_reader(&mut self) -> Option<Reader<D>> {
        self.enter();
        if self.pending {
            fault(F::TakeWhilePending);
        }
        ev("take", self.pos, 0);
        let old = std::mem::replace(&mut self.h, Handle::Gone);
        let taken = match old {
            Handle::Gone => return None,
            Handle::Rd(mut r) => {
                let t = r.as_mut().take_pinned();
                self.check_released("in what take_pinned left behind");
                self.check_left_behind(r.as_mut());
                t
            }
            Handle::St(mut s) => {
                let t = s.as_mut().reader_pin_mut().take_pinned();
                self.check_released("in what take_pinned left behind");
                self.check_left_behind(s.as_mut().reader_pin_mut());
                t
            }
        };
        self.check_released("after the reader was taken");
        if taken.tell() != self.pos {
            let who = self.who();
            let t = taken.tell();
            viol(K::Tell, || format!("{who}: taken reader tells {t}"));
        }
        self.new_pass();
        Some(taken)
    }

    fn check_left_behind(&self, mut r: Pin<&mut Reader<D>>) {
        if r.tell() != 0 || r.crc32s().next().is_some() {
            let t = r.tell();
            viol(K::TakeEmpty, || format!("what take_pinned leaves behind is at {t} or knows CRCs"));
        }
        let size = r.size();
        let waker = WakeFlag::new();
        let wk = waker_of(&waker);
        let mut cx = Context::from_waker(&wk);
        let mut out = Vec::new();
        let mut buf = [0u8; 64];
        for _ in 0..100 {
            let mut rb = ReadBuf::new(&mut buf);
            match r.as_mut().poll_read(&mut cx, &mut rb) {
                Poll::Ready(Ok(())) => {
                    if rb.filled().is_empty() {
                        break;
                    }
                    out.extend_from_slice(rb.filled());
                }
                other => {
                    viol(K::TakeEmpty, || format!("reading what take_pinned leaves behind: {other:?}"));
                    return;
                }
            }
        }
        let ok = crate::zip::parse(&mut out.as_slice()).is_ok_and(|l| l.ents.is_empty());
        if !ok || out.len() as u64 != size {
            viol(K::TakeEmpty, || format!("take_pinned leaves {} bytes behind which are not an empty archive of {size} bytes", out.len()));
        }
    }

    pub fn take(&mut self) {
        let known = self.known.clone();
        if let Some(r) = self.take_reader() {
            self.h = Handle::Rd(Box::pin(r));
            self.known = known;
            self.check_all();
        }
    }

    pub fn clone_client(&self) -> Option<Client<D>> {
        self.enter();
        if self.pending {
            fault(F::CloneWhilePending);
        }
        ev("clone", self.pos, 0);
        let opens_before = w(|w| w.opens.len());
        let c = match &self.h {
            Handle::Gone => return None,
            Handle::Rd(r) => {
                let reader: Reader<D> = Reader::clone(r);
                if reader.tell() != self.pos || reader.size() != self.total {
                    let who = self.who();
                    let t = reader.tell();
                    viol(K::CloneDiff, || format!("{who}: the clone is at {t}"));
                }
                Client::adopt(reader, self.rf.clone(), self.pos, self.known.clone(), self.total)
            }
            Handle::St(s) => {
                let s: BytesStream<D> = BytesStream::clone(s);
                let t = s.reader_ref().tell();
                if t != self.pos || s.reader_ref().size() != self.total {
                    let who = self.who();
                    viol(K::CloneDiff, || format!("{who}: the cloned stream is at {t}"));
                }
                // Go through a placeholder reader to construct the client
                let mut c = Client::adopt(Reader::new_empty_file(), self.rf.clone(), 0, Vec::new(), 98);
                c.h = Handle::St(Box::pin(s));
                c.known = self.known.clone();
                c.pass_opens = vec![0; c.known.len()];
                c.total = self.total;
                c.pos = self.pos;
                c.pass_from = self.pos;
                c.check_all();
                c
            }
        };
        if w(|w| w.opens.len()) != opens_before {
            viol(K::OpenUnjust, || "cloning opened a source".into());
        }
        let mut c = c;
        c.lenient = self.lenient;
        Some(c)
    }

    pub fn drop_reader(&mut self) {
        self.enter();
        if self.pending {
            fault(F::DropWhilePending);
        }
        ev("drop", self.pos, 0);
        self.h = Handle::Gone;
        self.check_held();
        self.check_released("after it was dropped");
        self.pending = false;
    }

    /// Switches between using the Reader and using a BytesStream.
    pub fn toggle_stream(&mut self) {
        self.enter();
        ev("toggle", self.pos, 0);
        let known = self.known.clone();
        let old = std::mem::replace(&mut self.h, Handle::Gone);
        match old {
            Handle::Gone => {}
            Handle::Rd(r) => {
                // Movable readers can be converted in the middle of a pending operation
                let (reader, kept) = match D::unpin_reader(r) {
                    Ok(r) => (Some(r), true),
                    Err(r) => {
                        self.h = Handle::Rd(r);
                        (self.take_reader(), false)
                    }
                };
                if let Some(r) = reader {
                    self.h = Handle::St(Box::pin(if chance(500) { r.into_bytes_stream() } else { BytesStream::from(r) }));
                }
                if !kept {
                    self.known = known;
                }
            }
            Handle::St(s) => match D::unpin_stream(s) {
                Ok(s) => self.h = Handle::Rd(Box::pin(s.into_reader())),
                Err(s) => {
                    self.h = Handle::St(s);
                    if let Some(r) = self.take_reader() {
                        self.h = Handle::Rd(Box::pin(r));
                    }
                    self.known = known;
                }
            },
        }
        // Whoever polls next has to register its waker again
        self.flag.woken.store(true, std::sync::atomic::Ordering::Relaxed);
        self.check_all();
    }

    /// Buffer sizes that end at, just before or just after interesting places.
    pub fn draw_cap(&self) -> usize {
        if self.rf.len() > 200_000 && chance(250) {
            return 1 + draw(pick(&[100_000, 300_000, 1 << 21])) as usize;
        }
        match weighted(&[30, 10, 25, 15, 10, 5, 4, 1]) {
            0 => 1 + draw(200) as usize,
            1 => 1 + draw(9) as usize,
            2 => {
                let from = self.rf.bounds.partition_point(|b| *b <= self.pos);
                let next = &self.rf.bounds[from..self.rf.bounds.len().min(from + 6)];
                if next.is_empty() {
                    return 16;
                }
                let b = pick(next);
                let d = (b - self.pos) as i64 + draw(5) as i64 - 2;
                d.clamp(1, 1 << 20) as usize
            }
            3 => (8192 - 2 + draw(5)) as usize,
            4 => 1 + draw(4096) as usize,
            5 => 65536,
            6 => 1 + draw(1 << 19) as usize,
            _ => 0,
        }
    }

    pub fn draw_target(&self) -> u64 {
        let len = self.rf.len();
        match weighted(&[40, 30, 10, 6, 4, 2]) {
            0 => {
                let b = pick(&self.rf.bounds);
                b.saturating_add(draw(7)).saturating_sub(3)
            }
            1 => draw(len.saturating_add(1)),
            2 => 0,
            3 => len.saturating_add(draw(100)),
            4 => self.pos,
            _ => u64::MAX - draw(3),
        }
    }
}

fn waker_of(f: &Arc<WakeFlag>) -> Waker {
    waker(f)
}

/// Bounded drain: reads to the end in a world without failures, with bounded pending.
/// Returns the final outcome (Eof or Err).
pub fn drain<D: Src>(c: &mut Client<D>, cap: usize) -> Out {
    let start_polls = w(|w| w.polls);
    let start_pends = w(|w| w.pends);
    let start_src = w(|w| w.src_bytes);
    let mut bytes = 0u64;
    let data: u64 = c.rf.specs.iter().map(|s| s.size).fold(0, u64::saturating_add);
    let over: u64 = c.rf.specs.iter().map(|s| if let Some(Bad::Len(a)) = s.bad { a } else { 0 }).sum();
    loop {
        if aborted() {
            return Out::Dead;
        }
        let out = c.poll_read(cap, 0, false);
        match out {
            Out::Pending => {
                if !c.wait() {
                    return Out::Dead;
                }
            }
            Out::Bytes(n) => bytes += n as u64,
            Out::Eof | Out::Err | Out::Dead => return out,
        }
        let (polls, pends, src) = w(|w| (w.polls - start_polls, w.pends - start_pends, w.src_bytes - start_src));
        // Each poll delivers something, or is explained by a pending answer of a source.
        if polls > 16 + bytes + 3 * pends {
            let who = c.who();
            viol(K::Unbounded, || format!("{who}: {polls} polls for {bytes} bytes and {pends} pending answers"));
            return Out::Dead;
        }
        if D::SIM {
            if src > data.saturating_add(over).saturating_mul(2).saturating_add(1 << 16) {
                let who = c.who();
                viol(K::Unbounded, || format!("{who}: {src} bytes were read from sources of {data} bytes in one pass"));
                return Out::Dead;
            }
        }
    }
}

pub fn harvest<D: Src>(c: &Client<D>) -> HashMap<String, u32> {
    c.reader()
        .map(|r| r.crc32s().map(|(n, c)| (n.to_string(), c)).collect())
        .unwrap_or_default()
}
