//! The actix-web responder under simulated requests, consumers, disconnects and source failures.

use crate::big::{huge_arena, look_around};
use crate::client::*;
use crate::core::*;
use crate::source::*;
use crate::spec::*;
use crate::world::*;
use actix_web::Responder;
use actix_web::body::{BodySize, BoxBody, MessageBody};
use actix_web::http::header::{HeaderMap, HeaderValue, RANGE};
use bytes::Bytes;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::sync::oneshot;
use zippity::Reader;

/// Outcomes of a request that agree with the property.
#[derive(Clone, Debug, Default)]
struct Expect {
    /// Served range, inclusive
    ok: Option<(u64, u64)>,
    unsat: bool,
    bad: bool,
    no_header: bool,
}

struct Session<D: Src> {
    /// Model of the position in the archive; has no reader
    ghost: Client<D>,
    body: Option<Pin<Box<BoxBody>>>,
    from: u64,
    len: u64,
    sent: u64,
    chunks: Vec<(Bytes, Vec<u8>)>,
    rx: Option<oneshot::Receiver<Reader<D>>>,
    rx_flag: Arc<WakeFlag>,
    rx_waker: Waker,
    flag: Arc<WakeFlag>,
    waker: Waker,
    pending: bool,
    failed: bool,
    complete: bool,
    /// The CRC was delivered, it has to be known
    known: Vec<Option<u32>>,
}

fn range_value(size: u64, bounds: &[u64]) -> (Option<Vec<u8>>, Expect) {
    let point = || -> u64 {
        match draw(3) {
            0 => draw(size),
            1 => pick(bounds).saturating_add(draw(5)).saturating_sub(2).min(size - 1),
            _ => pick(&[0, 1, size - 1, size / 2]),
        }
    };
    let full = |a: u64, b: u64| Expect { ok: Some((a, b)), ..Expect::default() };
    let s = |v: String| Some(v.into_bytes());
    match weighted(&[20, 20, 8, 10, 10, 8, 4, 4, 6, 4, 8, 3]) {
        0 => (None, Expect { ok: Some((0, size - 1)), no_header: true, ..Expect::default() }),
        1 => {
            let (a, b) = (point(), point());
            let (a, b) = (a.min(b), a.max(b));
            (s(format!("bytes={a}-{b}")), full(a, b))
        }
        2 => {
            let a = point();
            let b = pick(&[size, size.saturating_add(1), size.saturating_add(draw(1000)), u64::MAX, u64::MAX - 1]);
            (s(format!("bytes={a}-{b}")), full(a, size - 1))
        }
        3 => {
            let a = point();
            (s(format!("bytes={a}-")), full(a, size - 1))
        }
        4 => {
            let n = 1 + point();
            (s(format!("bytes=-{n}")), full(size - n, size - 1))
        }
        5 => {
            // Nothing of it exists
            let a = pick(&[size, size.saturating_add(1), size.saturating_add(draw(1000)), u64::MAX]);
            let v = if chance(500) { format!("bytes={a}-") } else { format!("bytes={a}-{}", a.saturating_add(draw(100))) };
            (s(v), Expect { unsat: true, ..Expect::default() })
        }
        6 => {
            let n = size.saturating_add(1 + draw(1000));
            (s(format!("bytes=-{n}")), Expect { unsat: true, ok: Some((0, size - 1)), ..Expect::default() })
        }
        7 => {
            let (a, b) = (point(), point());
            if a == b {
                return (s(format!("bytes={a}-{b}")), full(a, b));
            }
            let (a, b) = (a.max(b), a.min(b));
            (s(format!("bytes={a}-{b}")), Expect { unsat: true, bad: true, ..Expect::default() })
        }
        8 => {
            // Several ranges
            let mut p: Vec<u64> = (0..4).map(|_| point()).collect();
            p.sort_unstable();
            let (x, y) = (format!("{}-{}", p[0], p[1]), format!("{}-{}", p[2], p[3]));
            let sep = if chance(500) { ", " } else { "," };
            let overlap = p[1] >= p[2];
            let first = chance(600);
            let v = if first { format!("bytes={x}{sep}{y}") } else { format!("bytes={y}{sep}{x}") };
            let r = if first { (p[0], p[1]) } else { (p[2], p[3]) };
            (s(v), Expect { ok: Some(r), unsat: overlap, ..Expect::default() })
        }
        9 => {
            // One of several can't be satisfied
            let a = point();
            (s(format!("bytes={a}-{a},{}-", size.saturating_add(draw(10)))), Expect { ok: Some((a, a)), unsat: true, ..Expect::default() })
        }
        10 => {
            let a = point();
            let v = pick(&[
                "garbage", "bytes=", "bytes=abc-5", "bytes=1-2-3", "bytes=-", "bytes", "", "items=0-1", "bytes 0-1", "bytes=5", "bytes=--5", "bytes=0-x", "bytes=0x1-2", "bytes=1-2,", "bytes=,", "bytes=1-2,foo", "bytes= ", "=0-1",
                "bytes=1.5-2",
            ]);
            let v = if chance(100) { format!("octets={a}-{a}") } else { v.to_string() };
            (s(v), Expect { bad: true, ..Expect::default() })
        }
        _ => {
            let mut v = b"bytes=0-".to_vec();
            v.push(pick(&[0x80, 0xff, 0xc3, 0xe9]));
            (Some(v), Expect { bad: true, ..Expect::default() })
        }
    }
}

fn header<'a>(h: &'a HeaderMap, name: &str) -> Option<&'a str> {
    let mut it = h.get_all(name);
    let v = it.next();
    if it.next().is_some() {
        viol(K::HttpHdr, || format!("header {name} is present more than once"));
    }
    v.and_then(|v| v.to_str().ok())
}

/// A request arrives; the response is checked and becomes a session.
fn request<D: Src>(a: &Arena<D>) -> Session<D> {
    let rf = a.rf.clone();
    let size = rf.len();
    let id = fresh_id();
    w(|w| w.cur = id);
    let mut reader = a.builder.clone().build();
    let mut start = 0;
    if chance(200) {
        start = draw(size + 20);
        reader.seek_from_start_mut(start);
    }
    let (value, exp) = range_value(size, &rf.bounds);
    note(|| format!("session {id}: range {:?} expects {exp:?}", value.as_ref().map(|v| String::from_utf8_lossy(v).to_string())));
    ev("http.request", id as u64, value.as_ref().map_or(0, |v| v.len() as u64));
    let (adapter, rx) = if chance(700) {
        let (a, r) = reader.into_responder_with_channel();
        (a, Some(r))
    } else {
        (reader.into_responder(), None)
    };
    let flag = WakeFlag::new();
    let rx_flag = WakeFlag::new();
    let known: Vec<Option<u32>> = rf.specs.iter().map(|s| s.supplied).collect();
    let mut s = Session {
        ghost: Client::ghost(id, rf.clone(), start),
        body: None,
        from: start,
        len: 0,
        sent: 0,
        chunks: Vec::new(),
        rx,
        waker: waker(&flag),
        flag,
        rx_waker: waker(&rx_flag),
        rx_flag,
        pending: false,
        failed: false,
        complete: false,
        known,
    };
    s.listen();
    if chance(60) {
        // The handler fails before the responder is used
        probe("responder_never_used");
        ev("http.unused", 0, 0);
        drop(adapter);
        return s;
    }
    let mut req = actix_web::test::TestRequest::get();
    if let Some(v) = &value {
        match HeaderValue::from_bytes(v) {
            Ok(v) => req = req.insert_header((RANGE, v)),
            Err(_) => return s,
        }
    }
    let req = req.to_http_request();
    let opens = w(|w| w.next_token);
    let resp = adapter.respond_to(&req);
    if w(|w| w.next_token) != opens {
        viol(K::OpenUnjust, || "making the response opened a source".into());
    }
    let status = resp.status().as_u16();
    ev("http.status", u64::from(status), 0);
    let h = resp.headers().clone();
    let ctype = header(&h, "content-type").map(str::to_string);
    let clen = header(&h, "content-length").and_then(|v| v.parse::<u64>().ok());
    let crange = header(&h, "content-range").map(str::to_string);
    let accept = header(&h, "accept-ranges").map(str::to_string);
    let body = resp.into_body();
    let bsize = body.size();
    let bad = |m: String| viol(K::HttpHdr, || format!("request {:?}: {m}", value.as_ref().map(|v| String::from_utf8_lossy(v).to_string())));
    match status {
        200 | 206 => {
            let Some((a, b)) = exp.ok else {
                bad(format!("status {status}, expected {exp:?}"));
                return s;
            };
            let whole = a == 0 && b == size - 1;
            if status == 200 && !whole {
                bad(format!("status 200 for the range {a}-{b} of {size}"));
            }
            if status == 206 && exp.no_header {
                bad("status 206 without a range request".into());
            }
            let want = format!("bytes {a}-{b}/{size}");
            match &crange {
                Some(r) if *r != want => bad(format!("Content-Range is {r:?} instead of {want:?}")),
                Some(_) if exp.no_header => bad("Content-Range without a range request".into()),
                None if status == 206 => bad("206 without Content-Range".into()),
                _ => {}
            }
            let n = b - a + 1;
            if clen != Some(n) {
                bad(format!("Content-Length is {clen:?} instead of {n}"));
            }
            if bsize != BodySize::Sized(n) {
                bad(format!("size of the body is {bsize:?} instead of {n}"));
            }
            if ctype.as_deref() != Some("application/zip") {
                bad(format!("Content-Type is {ctype:?}"));
            }
            if accept.as_deref() != Some("bytes") {
                bad(format!("Accept-Ranges is {accept:?}"));
            }
            s.from = a;
            s.len = n;
            s.ghost.pos = a;
            s.ghost.pass_from = a;
            s.body = Some(Box::pin(body));
            probe(if status == 200 { "http_200" } else { "http_206" });
        }
        416 => {
            if !exp.unsat {
                bad(format!("status 416, expected {exp:?}"));
            }
            let want = format!("bytes */{size}");
            if crange.as_deref() != Some(&want) {
                bad(format!("Content-Range of 416 is {crange:?} instead of {want:?}"));
            }
            s.refused(body, bsize);
            probe("http_416");
        }
        400 => {
            if !exp.bad {
                bad(format!("status 400, expected {exp:?}"));
            }
            s.refused(body, bsize);
            probe("http_400");
        }
        x => bad(format!("status {x}")),
    }
    s
}

impl<D: Src> Session<D> {
    fn listen(&mut self) {
        if let Some(rx) = &mut self.rx {
            if chance(500) {
                let mut cx = Context::from_waker(&self.rx_waker);
                if let Poll::Ready(r) = Pin::new(rx).poll(&mut cx) {
                    let ok = r.is_ok();
                    viol(K::Chan, || format!("the receiver is ready (with a reader: {ok}) before the response ended"));
                }
            }
        }
    }

    fn refused(&mut self, body: BoxBody, size: BodySize) {
        if !matches!(size, BodySize::None | BodySize::Sized(0)) {
            viol(K::HttpHdr, || format!("refusal with a body of {size:?}"));
        }
        drop(body);
    }

    fn done(&self) -> bool {
        self.body.is_none()
    }

    /// Polls the body once.
    fn poll(&mut self) {
        let Some(body) = &mut self.body else { return };
        self.ghost.enter();
        if chance(w(|w| w.cfg.waker_swap)) {
            fault(F::WakerSwap);
            self.flag = WakeFlag::new();
            self.waker = waker(&self.flag);
        }
        self.flag.clear();
        let id = self.ghost.id;
        // Failures of file operations which ended since the last poll
        let late = w(|w| {
            w.src_ops_poll = 0;
            w.poll_errs = 0;
            w.polls += 1;
            w.opens.clear();
            w.fs_errs.remove(&id).unwrap_or(0)
        });
        if late > 0 {
            self.ghost.owed_err = true;
        }
        let waker = self.waker.clone();
        let mut cx = Context::from_waker(&waker);
        let res = body.as_mut().poll_next(&mut cx);
        let errs = w(|w| w.poll_errs) + late;
        let opens: Vec<(usize, usize)> = w(|w| std::mem::take(&mut w.opens));
        for (_, i) in opens {
            let end = (self.from + self.len).max(self.ghost.pos).saturating_add(1 << 20);
            if !self.ghost.may_open(i, self.ghost.pos, end, self.known[i].is_some()) {
                let p = self.ghost.pos;
                viol(K::OpenUnjust, || format!("response at {p} opened entry {i}, which it does not need"));
            }
        }
        let left = self.len - self.sent;
        let code;
        let mut got = 0u64;
        match res {
            Poll::Pending => {
                code = "http.pend";
                self.pending = true;
            }
            Poll::Ready(Some(Ok(chunk))) => {
                code = "http.chunk";
                self.pending = false;
                got = chunk.len() as u64;
                if self.complete {
                    viol(K::HttpBody, || format!("{got} bytes after the end of the body"));
                }
                if got == 0 {
                    viol(K::HttpBody, || "empty chunk of the body".into());
                }
                if got > left {
                    viol(K::HttpBody, || format!("chunk of {got} bytes, but only {left} bytes of the body are left"));
                } else {
                    if self.ghost.owed_err {
                        viol(K::Swallow, || "a source failure was not reported in the body".into());
                        self.ghost.owed_err = false;
                    }
                    self.ghost.owed_err = errs > late;
                    let v = chunk.to_vec();
                    self.ghost.check_bytes(&v);
                    let (a, b) = (self.ghost.pos, self.ghost.pos + got);
                    self.ghost.pos = b;
                    self.sent += got;
                    w(|w| w.bytes_out += got);
                    for (i, e) in self.ghost.rf.lay.ents.iter().enumerate() {
                        let over = |o: u64| a <= o && b >= o + 4;
                        if e.dd_crc_off.is_some_and(over) || over(e.cd_crc_off) {
                            self.known[i] = self.known[i].or(Some(0));
                        }
                    }
                    if chance(300) && self.chunks.len() < 8 {
                        fault(F::SlowConsumer);
                        self.chunks.push((chunk, v));
                    }
                }
            }
            Poll::Ready(Some(Err(e))) => {
                code = "http.err";
                self.pending = false;
                if !self.ghost.error_has_cause(errs) {
                    let p = self.ghost.pos;
                    viol(K::UnexpErr, || format!("body at {p} failed without a cause: {e}"));
                }
                self.ghost.poisoned = true;
                self.ghost.owed_err = false;
                self.failed = true;
            }
            Poll::Ready(None) => {
                code = "http.end";
                self.pending = false;
                self.complete = true;
                if left != 0 {
                    let (s, l) = (self.sent, self.len);
                    viol(K::HttpBody, || format!("body ended after {s} of {l} bytes"));
                }
            }
        }
        ev(code, self.ghost.id as u64, got);
        self.ghost.check_one_open();
        if self.pending {
            // Leave the receiver alone
        } else if let Some(rx) = &mut self.rx {
            if chance(50) {
                match rx.try_recv() {
                    Err(oneshot::error::TryRecvError::Empty) => {}
                    other => {
                        let ok = other.is_ok();
                        viol(K::Chan, || format!("the receiver is ready (with a reader: {ok}) before the response ended"));
                    }
                }
            }
        }
    }

    fn disconnect(&mut self) {
        self.ghost.enter();
        if self.body.is_some() && !self.complete {
            fault(F::Disconnect);
            if self.pending {
                fault(F::DropWhilePending);
            }
        }
        ev("http.drop", self.ghost.id as u64, self.sent);
        self.body = None;
        self.pending = false;
    }

    /// The body is gone: everything must be released and handed back.
    fn close(&mut self) -> Option<Client<D>> {
        self.disconnect();
        self.ghost.check_released("after its response was dropped");
        for (c, v) in &self.chunks {
            if c[..] != v[..] {
                viol(K::HttpBody, || "a chunk held by a slow consumer changed its content".into());
            }
        }
        let mut rx = self.rx.take()?;
        match rx.try_recv() {
            Ok(reader) => {
                if rx.try_recv().is_ok() {
                    viol(K::Chan, || "a second reader was received".into());
                }
                if reader.size() != self.ghost.rf.len() {
                    let z = reader.size();
                    viol(K::Chan, || format!("the returned reader announces {z} bytes"));
                }
                probe("reader_returned");
                let pos = reader.tell();
                let rf = self.ghost.rf.clone();
                let mut c = Client::adopt(reader, rf, pos, self.known.clone(), self.ghost.rf.len());
                c.poisoned = self.failed;
                c.owed_err = self.ghost.owed_err;
                // Bytes left over in the last chunk are behind the reader already
                if pos < self.ghost.pos || pos > self.ghost.pos.saturating_add(1 << 20) {
                    let p = self.ghost.pos;
                    viol(K::Tell, || format!("the returned reader is at {pos}, the response got to {p}"));
                }
                Some(c)
            }
            Err(e) => {
                viol(K::Chan, || format!("no reader was returned: {e}"));
                None
            }
        }
    }
}

fn after_return<D: Src>(mut c: Client<D>, big: bool) {
    // It goes on from its position, then everything works after a seek
    match draw(3) {
        0 => {
            let cap = c.draw_cap().max(1);
            let mut guard = 0;
            let mut out = c.poll_read(cap, 0, false);
            while out == Out::Pending && guard < 3000 {
                guard += 1;
                if !c.wait() {
                    return;
                }
                out = c.poll_read(cap, 0, false);
            }
        }
        1 => {
            let t = c.draw_target();
            c.seek(draw(7), t);
        }
        _ => {}
    }
    if !aborted() {
        if big {
            let p = c.pos;
            c.seek(draw(7), p);
            look_around(&mut c);
        } else {
            settle(&mut c);
        }
    }
    c.drop_reader();
}

fn run<D: Src>(p: &Prof, specs: Vec<ESpec>, states: Vec<Rc<SrcState>>, mk_ref: &dyn Fn(usize, &ESpec) -> D, mk: Box<dyn Fn(usize, &ESpec) -> D>) {
    w(|w| {
        w.chaos = false;
        let total: u64 = specs.iter().map(|s| s.size).sum();
        w.src_limit = 8 * total + 500_000;
    });
    let Some(rf) = make_ref(&specs, mk_ref) else { return };
    let rf = Rc::new(rf);
    note(|| format!("entries: {:?}", specs.iter().map(|s| (shorten(&s.name), s.size, s.supplied.is_some(), s.bad)).collect::<Vec<_>>()));
    swarm(p);
    bound_reads(&specs);
    let builder = make_builder(&specs, true, &*mk);
    let a = Arena { specs, rf: rf.clone(), mk, states, builder };
    w(|w| {
        w.chaos = true;
        w.errors_on = true;
    });
    serve(&a, false);
}

/// Requests to archives of many gigabytes, of which only the beginning of the body is sent.
pub fn huge(p: &Prof) {
    if let Some(a) = huge_arena(p) {
        serve(&a, true);
    }
}

pub fn serve<D: Src>(a: &Arena<D>, big: bool) {
    let healthy_specs = a.specs.iter().all(|s| s.bad.is_none());
    let mut open: Vec<Session<D>> = Vec::new();
    let mut back: Vec<Client<D>> = Vec::new();
    let n = 1 + draw(4);
    let mut started = 0;
    let drop_rate = rate(60);
    for _ in 0..4000 {
        if aborted() {
            break;
        }
        if started < n && (open.is_empty() || chance(100)) {
            started += 1;
            open.push(request(a));
            continue;
        }
        if open.is_empty() {
            break;
        }
        // The receiver may be gone long before
        let k = draw(open.len() as u64) as usize;
        if open[k].rx.is_some() && chance(10) {
            fault(F::ReceiverGone);
            ev("http.rxdrop", 0, 0);
            open[k].rx = None;
        }
        if open[k].done() || open[k].complete && chance(800) || open[k].failed || big && open[k].sent > 100_000 || chance(drop_rate) {
            let mut s = open.swap_remove(k);
            back.extend(s.close());
            continue;
        }
        if open[k].pending && !open[k].flag.is() && !chance(w(|w| w.cfg.spurious)) {
            if !open.iter().any(|s| !s.pending || s.flag.is()) && !step_event() {
                viol(K::Stall, || "every response is pending and nothing will ever wake them".into());
            }
            continue;
        }
        if has_events() && chance(100) {
            step_event();
        }
        open[k].poll();
    }
    if !aborted() {
        heal();
        for s in &a.states {
            s.broken.set(0);
        }
    }
    for mut s in open.drain(..) {
        let before = w(|w| (w.polls, w.pends));
        while !aborted() && s.body.is_some() && !s.complete && !s.failed && !(big && s.sent > 100_000) {
            s.poll();
            while s.pending && !s.flag.is() {
                if !step_event() {
                    viol(K::Stall, || "a response is pending and nothing will ever wake it".into());
                    break;
                }
            }
            let (polls, pends) = w(|w| (w.polls - before.0, w.pends - before.1));
            if polls > s.len.saturating_add(16 + 3 * pends) {
                viol(K::Unbounded, || "a response does not end".into());
            }
        }
        if s.complete && healthy_specs {
            probe("complete_response");
        }
        back.extend(s.close());
    }
    for c in back {
        if aborted() {
            break;
        }
        after_return(c, big);
    }
    if w(|w| w.live.len()) != 0 && !aborted() {
        viol(K::Leak, || "sources stay open after everything was dropped".into());
    }
}

pub fn scenario(p: &Prof) {
    let mut g = p.generate.clone();
    if chance(500) {
        g.bad_len = 0;
        g.bad_crc = 0;
    }
    g.bad_dyn = 0;
    let specs = gen_spec(&g);
    let states: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, false)).collect();
    let healthy: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, true)).collect();
    let st = states.clone();
    if chance(300) {
        run::<SimData<PhantomPinned>>(p, specs, states, &|i, _| SimData::new(healthy[i].clone()), Box::new(move |i, _| SimData::new(st[i].clone())));
    } else {
        run::<SimData<()>>(p, specs, states, &|i, _| SimData::new(healthy[i].clone()), Box::new(move |i, _| SimData::new(st[i].clone())));
    }
}
