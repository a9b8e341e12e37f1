//! Archives at scale: beyond 4 GiB (virtual data, never stored), near the 64-bit limit,
//! and with more than 65535 entries.

use crate::client::*;
use crate::core::*;
use crate::source::*;
use crate::spec::*;
use crate::world::*;
use crate::zip::{self, FType, Want, Window};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::Reader;

/// Random access to an archive through the seeks and reads of a Reader.
pub struct ReaderWindow<D: Src> {
    r: Pin<Box<Reader<D>>>,
    len: u64,
}

impl<D: Src> ReaderWindow<D> {
    pub fn new(r: Reader<D>) -> Self {
        let len = r.size();
        ReaderWindow { r: Box::pin(r), len }
    }
}

impl<D: Src> Window for ReaderWindow<D> {
    fn len(&self) -> u64 {
        self.len
    }
    fn get(&mut self, off: u64, len: usize) -> Result<Vec<u8>, String> {
        if off.checked_add(len as u64).is_none_or(|e| e > self.len) {
            return Err(format!("archive has no bytes {off}+{len}"));
        }
        self.r.as_mut().seek_from_start_pinned(off);
        let mut buf = vec![0u8; len];
        let mut n = 0;
        let wk = WakeFlag::new();
        let waker = waker(&wk);
        let mut cx = Context::from_waker(&waker);
        while n < len {
            w(|w| {
                w.src_ops_poll = 0;
                w.polls += 1;
            });
            wk.clear();
            let mut rb = ReadBuf::new(&mut buf[n..]);
            match self.r.as_mut().poll_read(&mut cx, &mut rb) {
                Poll::Pending => {
                    while !wk.is() {
                        if !step_event() {
                            return Err(format!("read at {} is pending forever", off + n as u64));
                        }
                    }
                }
                Poll::Ready(Ok(())) => {
                    let k = rb.filled().len();
                    if k == 0 {
                        return Err(format!("end of file at {} of {}", off + n as u64, self.len));
                    }
                    n += k;
                }
                Poll::Ready(Err(e)) => return Err(format!("read at {} failed: {e}", off + n as u64)),
            }
        }
        Ok(buf)
    }
}

/// Reference of an archive whose large entries have supplied CRCs.
pub fn window_ref<D: Src>(reader: Reader<D>, specs: &[ESpec]) -> Option<Ref> {
    let mut win = ReaderWindow::new(reader);
    let lay = match zip::parse(&mut win) {
        Ok(l) => l,
        Err(e) => {
            viol(K::Parse, || e);
            return None;
        }
    };
    let want: Vec<Want> = specs.iter().map(ESpec::want).collect();
    if let Err((meta, e)) = zip::compare(&lay, &want) {
        viol(if meta { K::Meta } else { K::Spec }, || e);
        return None;
    }
    let mut body = Body::default();
    let read = |win: &mut ReaderWindow<D>, a: u64, b: u64| -> Option<Vec<u8>> {
        match win.get(a, (b - a) as usize) {
            Ok(v) => Some(v),
            Err(e) => {
                viol(K::UnexpErr, || e);
                None
            }
        }
    };
    for (e, s) in lay.ents.iter().zip(specs) {
        body.push_raw(read(&mut win, e.local_off, e.data_off)?);
        body.push_data(s.content.clone(), s.size);
        body.push_raw(read(&mut win, e.dd_off, e.end)?);
    }
    body.push_raw(read(&mut win, lay.cd_off, lay.len)?);
    let mut rf = Ref::with_layout(body, lay, RefEnt::all(specs));
    // Places where 32 bits end are interesting as well
    let len = rf.len();
    for k in 1..8u64 {
        for b in [k << 31, k << 32, u64::from(u32::MAX) * k] {
            if b < len {
                rf.bounds.push(b);
            }
        }
    }
    for e in &rf.lay.ents {
        for b in [e.data_off.saturating_add(1 << 32), e.data_off.saturating_add(1 << 31), e.data_off.saturating_add(u64::from(u32::MAX))] {
            if b < e.dd_off {
                rf.bounds.push(b);
            }
        }
    }
    rf.bounds.sort_unstable();
    rf.bounds.dedup();
    Some(rf)
}

fn huge_spec(i: usize, size: u64) -> ESpec {
    let content = if size > 1 << 22 { Content::Byte(draw(256) as u8) } else { draw_content() };
    let truth = content.crc(size);
    let must = size > 100_000;
    ESpec {
        name: if chance(100) { "h".repeat(1 + draw(3000) as usize) + &i.to_string() } else { format!("big{i}") },
        content,
        size,
        truth,
        supplied: (must || chance(500)).then_some(truth),
        bad: None,
        clamp: false,
        dt: chance(300).then(draw_civil),
        ftype: FType::File,
        perm: Perm::Default,
    }
}

pub fn huge_specs() -> Vec<ESpec> {
    let n = 1 + draw(6) as usize;
    let near_limit = chance(200);
    let mut sizes: Vec<u64> = (0..n)
        .map(|_| match weighted(&[4, 3, 3, 2, 2, 2, 1]) {
            0 => (1u64 << 32) - 400 + draw(800),
            1 => draw(3000),
            2 => (1u64 << 31) - 400 + draw(800),
            3 => (1u64 << 33) + draw(1 << 33),
            4 => (1u64 << 40) + draw(1 << 50),
            5 => (1u64 << 32) * (1 + draw(3)) - draw(3),
            _ => 0,
        })
        .collect();
    if near_limit {
        // The rest up to the limit, minus room for headers
        let used: u64 = sizes.iter().sum();
        let i = draw(n as u64) as usize;
        sizes[i] = sizes[i].saturating_add(u64::MAX - used - 60_000 - draw(100_000));
    }
    sizes.into_iter().enumerate().map(|(i, s)| huge_spec(i, s)).collect()
}

/// An archive of entries which are too large to be read.
pub fn huge_arena(p: &Prof) -> Option<Arena<SimData<()>>> {
    w(|w| {
        w.chaos = false;
        w.src_limit = 500_000;
    });
    let specs = huge_specs();
    note(|| format!("entries: {:?}", specs.iter().map(|s| (shorten(&s.name), s.size, s.supplied.is_some())).collect::<Vec<_>>()));
    let states: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, false)).collect();
    let st = states.clone();
    let mk = move |i: usize, _: &ESpec| SimData::<()>::new(st[i].clone());
    let mut all_known = specs.clone();
    for s in &mut all_known {
        s.supplied = Some(s.truth);
    }
    let b = make_builder(&all_known, true, &mk);
    let announced = b.size();
    let r = b.build();
    if r.size() != announced {
        let z = r.size();
        viol(K::Size, || format!("builder announces {announced}, reader {z}"));
    }
    let Some(mut rf) = window_ref(r, &all_known) else { return None };
    for (r, s) in rf.specs.iter_mut().zip(&specs) {
        r.supplied = s.supplied;
    }
    let rf = Rc::new(rf);
    swarm(p);
    let builder = make_builder(&specs, true, &mk);
    if builder.size() != rf.len() {
        let (x, y) = (builder.size(), rf.len());
        viol(K::Size, || format!("builder announces {x} bytes, archive has {y}"));
    }
    let a = Arena { specs, rf: rf.clone(), mk: Box::new(mk), states, builder };
    w(|w| {
        w.chaos = true;
        w.errors_on = true;
    });
    Some(a)
}

/// Healthy sources: everything can be read.
pub fn look_around<D: Src>(c: &mut Client<D>) {
    let rf = c.rf.clone();
    for _ in 0..6 {
        let t = c.draw_target();
        c.seek(draw(4), t);
        for _ in 0..4 {
            let cap = c.draw_cap().clamp(1, 40_000);
            let mut out = c.poll_read(cap, 0, false);
            while out == Out::Pending {
                if !c.wait() {
                    break;
                }
                out = c.poll_read(cap, 0, false);
            }
            if out == Out::Err && !aborted() {
                viol(K::UnexpErr, || "healthy sources, read after a seek failed".into());
            }
        }
        if aborted() {
            break;
        }
    }
    // The whole tail
    if !aborted() {
        let from = rf.lay.cd_off.saturating_sub(draw(5000));
        c.seek(0, from);
        if drain(c, 4096) == Out::Err {
            viol(K::UnexpErr, || "healthy sources, reading the tail failed".into());
        }
    }
}

pub fn huge(p: &Prof) {
    let Some(a) = huge_arena(p) else { return };
    let rf = a.rf.clone();
    let mut clients = vec![a.spawn()];
    let steps = 20 + draw(100);
    let spurious = w(|w| w.cfg.spurious);
    for _ in 0..steps {
        if aborted() {
            break;
        }
        let ready: Vec<usize> = (0..clients.len()).filter(|&i| !clients[i].pending || clients[i].flag.is()).collect();
        if ready.is_empty() {
            if chance(spurious) || chance(120) {
                let ci = draw(clients.len() as u64) as usize;
                client_step(p, &a, &mut clients, ci);
            } else if !step_event() {
                viol(K::Stall, || "every reader is pending and nothing will ever wake them".into());
                break;
            }
        } else {
            let ci = pick(&ready);
            client_step(p, &a, &mut clients, ci);
        }
    }
    if !aborted() {
        heal();
        for s in &a.states {
            s.broken.set(0);
        }
        for c in &mut clients {
            look_around(c);
        }
    }
    for c in &mut clients {
        c.drop_reader();
    }
    if w(|w| w.live.len()) != 0 && !aborted() {
        viol(K::Leak, || "sources stay open after everything was dropped".into());
    }
}

/// A complete sequential read of an entry larger than 4 GiB with an unknown CRC, or a seek over it.
pub fn giant(p: &Prof) {
    w(|w| {
        w.chaos = false;
        w.src_limit = 4_000_000;
    });
    let size = (1u64 << 32) + draw(3000) - 1500;
    let mut specs = vec![huge_spec(0, draw(100)), huge_spec(1, size), huge_spec(2, draw(100))];
    specs[1].supplied = None;
    let states: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, false)).collect();
    let st = states.clone();
    let mk = move |i: usize, _: &ESpec| SimData::<()>::new(st[i].clone());
    let mut all_known = specs.clone();
    for s in &mut all_known {
        s.supplied = Some(s.truth);
    }
    let Some(mut rf) = window_ref(make_builder(&all_known, true, &mk).build(), &all_known) else { return };
    for (r, s) in rf.specs.iter_mut().zip(&specs) {
        r.supplied = s.supplied;
    }
    let rf = Rc::new(rf);
    let builder = make_builder(&specs, true, &mk);
    let a = Arena { specs, rf: rf.clone(), mk: Box::new(mk), states, builder };
    swarm(&Prof { pend: false, short: false, ..p.clone() });
    w(|w| w.chaos = true);
    let mut c = a.spawn();
    if chance(500) {
        // Over the data: the CRC has to be calculated
        let to = rf.lay.ents[1].dd_off - draw(100);
        c.seek(0, to);
        drain(&mut c, 1 << 16);
    } else {
        c.seek(0, 0);
        drain(&mut c, 1 << 20);
    }
    if !aborted() && c.pos != rf.len() {
        let p = c.pos;
        viol(K::EarlyEof, || format!("read ended at {p}"));
    }
    probe("giant_entry_read");
    c.drop_reader();
}

/// More entries than 16 bits can count.
pub fn many(p: &Prof) {
    w(|w| {
        w.chaos = false;
        w.src_limit = 2_000_000;
    });
    let n = pick(&[65_534usize, 65_535, 65_536, 65_537, 70_000]);
    let content = Content::Prf(draw(1 << 30));
    let small = draw(5);
    let crcs: Vec<u32> = (0..=8u64).map(|k| content.crc(k)).collect();
    let every = 1 + draw(50);
    let specs: Vec<ESpec> = (0..n)
        .map(|i| {
            let size = if (i as u64) % every == 0 { small } else { 0 };
            ESpec {
                name: format!("{i:x}"),
                content: content.clone(),
                size,
                truth: crcs[size as usize],
                supplied: None,
                bad: None,
                clamp: false,
                dt: None,
                ftype: FType::File,
                perm: Perm::Default,
            }
        })
        .collect();
    let states: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, false)).collect();
    let st = states.clone();
    let mk = move |i: usize, _: &ESpec| SimData::<()>::new(st[i].clone());
    let Some(rf) = make_ref(&specs, &mk) else { return };
    let rf = Rc::new(rf);
    swarm(&Prof { pend: true, ..p.clone() });
    let builder = make_builder(&specs, true, &mk);
    let a = Arena { specs, rf: rf.clone(), mk: Box::new(mk), states, builder };
    w(|w| w.chaos = true);
    let mut c = a.spawn();
    for _ in 0..10 {
        let t = c.draw_target();
        c.seek(draw(4), t);
        let cap = c.draw_cap();
        let mut out = c.poll_read(cap, 0, false);
        while out == Out::Pending && c.wait() {
            out = c.poll_read(cap, 0, false);
        }
        if aborted() {
            return;
        }
    }
    c.seek(0, rf.lay.cd_off - draw(100));
    drain(&mut c, 1 << 18);
    probe("many_entries_read");
    c.drop_reader();
}
