//! Simulations of readers over simulated and in-memory sources.

use crate::client::*;
use crate::source::*;
use crate::spec::*;
use crate::world::*;
use std::collections::HashMap;
use std::marker::PhantomPinned;
use std::rc::Rc;
use zippity::Builder;

/// What a property wants from the simulation. Weights are relative, rates per mille (maxima).
#[derive(Clone, Debug)]
pub struct Prof {
    pub generate: GenCfg,
    pub pend: bool,
    pub short: bool,
    pub errors: bool,
    pub start_seek_errors: bool,
    pub max_clients: u64,
    pub w_read: u64,
    pub w_seek: u64,
    pub w_badseek: u64,
    pub w_clone: u64,
    pub w_take: u64,
    pub w_toggle: u64,
    pub w_drop: u64,
    pub w_rebuild: u64,
    pub w_build: u64,
    pub memory_types: u64,
    pub stream_first: u64,
    pub full_first: u64,
    pub steps: u64,
    /// Another archive of the same thread with the same names
    pub decoy: u64,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            generate: GenCfg {
                max_entries: 40,
                max_size: 60_000,
                supply: 300,
                bad_len: 0,
                bad_dyn: 0,
                bad_crc: 0,
                clamp: 0,
                large: 4,
            },
            pend: true,
            short: true,
            errors: false,
            start_seek_errors: false,
            max_clients: 3,
            w_read: 100,
            w_seek: 10,
            w_badseek: 2,
            w_clone: 3,
            w_take: 3,
            w_toggle: 3,
            w_drop: 1,
            w_rebuild: 1,
            w_build: 1,
            memory_types: 150,
            stream_first: 150,
            full_first: 300,
            steps: 120,
            decoy: 60,
        }
    }
}

pub fn rate(max: u64) -> u64 {
    // Whole categories are switched off in many runs
    match weighted(&[4, 3, 3, 2, 1]) {
        0 => 0,
        1 => 30.min(max),
        2 => 150.min(max),
        3 => 500.min(max),
        _ => max,
    }
}

/// Chooses the disturbances of a run.
pub fn swarm(p: &Prof) {
    let pend = if p.pend { rate(900) } else { 0 };
    let short = if p.short { rate(1000) } else { 0 };
    let short_max = pick(&[1, 3, 10, 100, 5000]);
    let (mut eo, mut er, mut es) = (0, 0, 0);
    if p.errors {
        eo = rate(400) / 2;
        er = rate(400) / 2;
        es = rate(600);
    }
    let persistent = if p.errors { rate(700) } else { 0 };
    let stall = rate(100);
    let yield_now = rate(600);
    let spurious = rate(400);
    let waker_swap = rate(1000);
    let fs_err = if p.errors { rate(100) } else { 0 };
    let err_budget = pick(&[1, 2, 5, 1000]);
    w(|w| {
        w.cfg = Cfg {
            pend,
            yield_now,
            stall,
            short,
            short_max,
            err_open: eo,
            err_read: er,
            err_seek: es,
            persistent,
            spurious,
            waker_swap,
            fs_err,
            err_budget,
        };
    });
}

/// Single bytes of large archives take too long for what they find.
pub fn bound_reads(specs: &[ESpec]) {
    let total: u64 = specs.iter().map(|s| s.size).fold(0, u64::saturating_add);
    if total > 20_000 {
        w(|w| w.cfg.short_max = w.cfg.short_max.max(total / 4000));
    }
    if total > 200_000 && chance(500) {
        w(|w| w.cfg.short_max = w.cfg.short_max.max(200_000));
    }
}

/// Sources stop failing and being slow.
pub fn heal() {
    ev("heal", 0, 0);
    w(|w| {
        w.errors_on = false;
        w.pend_budget = 60;
    });
}

pub struct Arena<D: Src> {
    pub specs: Vec<ESpec>,
    pub rf: Rc<Ref>,
    pub mk: Box<dyn Fn(usize, &ESpec) -> D>,
    pub states: Vec<Rc<SrcState>>,
    pub builder: Builder<D>,
}

impl<D: Src> Arena<D> {
    pub fn spawn(&self) -> Client<D> {
        let opens = w(|w| w.next_token);
        let mut r = self.builder.clone().build();
        let mut start = 0;
        if chance(60) {
            // Seek before the reader is pinned
            start = draw(self.rf.len() + 10);
            r.seek_from_start_mut(start);
        }
        if r.size() != self.rf.len() {
            let (a, b) = (r.size(), self.rf.len());
            viol(K::Size, || format!("reader announces {a} bytes, archive has {b}"));
        }
        if D::SIM && w(|w| w.next_token) != opens {
            viol(K::OpenUnjust, || "building or seeking opened a source".into());
        }
        let known = self.rf.specs.iter().map(|s| s.supplied).collect();
        Client::adopt(r, self.rf.clone(), start, known, self.rf.len())
    }

    /// A client over a new builder which was given all CRCs a reader has found.
    pub fn rebuild(&self, crcs: &HashMap<String, u32>) -> Client<D> {
        let mut specs = self.specs.clone();
        for s in &mut specs {
            if s.bad.is_none() {
                if let Some(c) = crcs.get(&s.name) {
                    s.supplied = Some(*c);
                }
            }
        }
        let b = make_builder(&specs, true, &*self.mk);
        let mut rf = (*self.rf).clone();
        for (r, s) in rf.specs.iter_mut().zip(&specs) {
            r.supplied = s.supplied;
        }
        Client::new(b.build(), Rc::new(rf))
    }
}

/// Reads to the end, past all entries whose data are wrong.
/// Errors have to repeat for entries with constant wrong length or CRC.
pub fn full_pass<D: Src>(c: &mut Client<D>, cap: usize) {
    let rf = c.rf.clone();
    for _ in 0..2 * rf.specs.len() + 4 {
        let out = drain(c, cap);
        if aborted() {
            return;
        }
        match out {
            Out::Eof | Out::Dead => return,
            Out::Err => {}
            _ => return,
        }
        // Which entry is to blame
        let p = c.pos;
        let blame = rf.specs.iter().enumerate().find_map(|(i, s)| {
            let e = &rf.lay.ents[i];
            s.bad?;
            if p >= e.data_off && p <= e.end {
                Some((i, e.end, true))
            } else if p >= e.cd_off && p < e.cd_end {
                Some((i, e.cd_end, false))
            } else {
                None
            }
        });
        let Some((i, resume, in_data)) = blame else {
            // The violation, if it is one, was recorded by the client
            return;
        };
        let bad = rf.specs[i].bad;
        let sticky = in_data && c.pass_from <= rf.lay.ents[i].data_off && matches!(bad, Some(Bad::Len(_) | Bad::Crc));
        for _ in 0..draw(4) {
            let mut out = c.poll_read(cap, 0, false);
            let mut guard = 0;
            while out == Out::Pending && guard < 1000 {
                guard += 1;
                if !c.wait() {
                    return;
                }
                out = c.poll_read(cap, 0, false);
            }
            if sticky && out != Out::Err && out != Out::Dead {
                let k = if bad == Some(Bad::Crc) { K::WrongCrc } else { K::WrongLen };
                viol(k, || format!("retry after the error of entry {i} ({bad:?}) resulted in {out:?}"));
            }
        }
        if aborted() {
            return;
        }
        let how = draw(3);
        c.seek(how, resume);
    }
}

/// After faults stop: everybody has to reach the end with the right content.
pub fn settle<D: Src>(c: &mut Client<D>) {
    if matches!(c.h, Handle::Gone) {
        return;
    }
    let cap = pick(&[4096, 1, 30, 65536, 8192, 100_000]);
    let cap = match c.rf.len() {
        0..=20_000 => cap,
        20_001..=1_000_000 => cap.max(512),
        _ => cap.max(4096),
    };
    let rf = c.rf.clone();
    let healthy = rf.specs.iter().all(|s| s.bad.is_none()) && !c.lenient;
    let out = drain(c, cap);
    if aborted() {
        return;
    }
    match out {
        Out::Eof => {}
        Out::Err => {
            // A poisoned reader may keep failing, but not after a seek
            for _ in 0..draw(3) {
                let _ = drain(c, cap);
                if aborted() {
                    return;
                }
            }
            let p = c.pos;
            let how = draw(7);
            c.seek(how, p);
            full_pass(c, cap);
        }
        _ => return,
    }
    if aborted() {
        return;
    }
    let how = draw(7);
    c.seek(how, 0);
    full_pass(c, cap);
    if aborted() || matches!(c.h, Handle::Gone) {
        return;
    }
    if healthy && c.pos < rf.len() {
        let (pos, len) = (c.pos, rf.len());
        viol(K::EarlyEof, || format!("healthy sources, but a full pass ended at {pos} of {len}"));
    }
    // Everything is known now, no source is needed for headers
    if healthy && D::SIM && !rf.specs.is_empty() && chance(300) {
        let p = rf.lay.cd_off + draw(rf.len() - rf.lay.cd_off);
        c.seek(0, p);
        let _ = drain(c, cap);
    }
}

pub fn client_step<D: Src>(p: &Prof, a: &Arena<D>, clients: &mut Vec<Client<D>>, ci: usize) {
    let spurious = clients[ci].pending && !clients[ci].flag.is();
    let op = weighted(&[
        p.w_read,
        p.w_seek,
        p.w_badseek,
        p.w_clone,
        p.w_take,
        p.w_toggle,
        p.w_drop,
        p.w_rebuild,
        p.w_build,
    ]);
    let full = clients.len() as u64 >= p.max_clients;
    match op {
        0 => {
            let c = &mut clients[ci];
            if spurious {
                fault(F::Spurious);
            }
            let (cap, prefill, uninit) = if chance(150) {
                (c.draw_cap(), draw(40) as usize, chance(500))
            } else {
                (c.draw_cap(), 0, false)
            };
            if c.pending && chance(300) {
                fault(F::Abandon);
            }
            c.poll_read(cap, prefill, uninit);
        }
        1 => {
            let how = draw(7);
            let t = clients[ci].draw_target();
            clients[ci].seek(how, t);
        }
        2 => {
            let how = draw(2);
            let x = pick(&[0, 1, 1000, 1 << 62]);
            clients[ci].seek_before_start(how, x);
        }
        3 => {
            if !full {
                if let Some(c) = clients[ci].clone_client() {
                    clients.push(c);
                }
            }
        }
        4 => clients[ci].take(),
        5 => clients[ci].toggle_stream(),
        6 => {
            if clients.len() > 1 {
                clients[ci].drop_reader();
                clients.swap_remove(ci);
            }
        }
        7 => {
            if !full {
                let crcs = harvest(&clients[ci]);
                ev("rebuild", crcs.len() as u64, 0);
                clients.push(a.rebuild(&crcs));
            }
        }
        _ => {
            if !full {
                ev("build", 0, 0);
                clients.push(a.spawn());
            }
        }
    }
}

fn change_length(a: &Arena<impl Src>) {
    let dynamic: Vec<usize> = (0..a.specs.len()).filter(|&i| a.specs[i].bad == Some(Bad::Dyn)).collect();
    if dynamic.is_empty() {
        return;
    }
    let i = pick(&dynamic);
    let s = &a.specs[i];
    let n = match draw(5) {
        0 => s.size,
        1 => draw(s.size + 1),
        2 => s.size + 1 + draw(50),
        3 => s.size - 1,
        _ => s.size + draw(20_000),
    };
    fault(F::LengthChange);
    ev("length", i as u64, n);
    if let Some(st) = a.states.get(i) {
        st.actual.set(n);
    }
}

/// Another archive with entries of the same names and mostly the same sizes, but with other data.
/// Readers of one archive may not influence what readers of another one find.
pub struct Decoy {
    specs: Vec<ESpec>,
    states: Vec<Rc<SrcState>>,
    first: Option<Vec<u8>>,
}

impl Decoy {
    pub fn of(specs: &[ESpec]) -> Decoy {
        let resize = chance(300);
        let supply = pick(&[0, 0, 300]);
        let specs: Vec<ESpec> = specs
            .iter()
            .map(|s| {
                let mut t = s.clone();
                t.bad = None;
                if chance(900) {
                    t.content = Content::Prf(draw(1 << 40));
                }
                if resize && chance(300) {
                    t.size = draw_size(20_000);
                }
                t.truth = t.content.crc(t.size);
                t.supplied = chance(supply).then_some(t.truth);
                t
            })
            .collect();
        let states = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, true)).collect();
        Decoy { specs, states, first: None }
    }

    /// Reads everything, or only the end for which all CRCs are needed, in calm conditions.
    pub fn visit(&mut self) {
        ev("decoy", self.specs.len() as u64, 0);
        probe("other_archive");
        let limits = w(|w| {
            let old = (w.chaos, w.src_limit);
            w.chaos = false;
            w.src_limit = u64::MAX;
            old
        });
        let builder = make_builder(&self.specs, true, &|i, _| SimData::<()>::new(self.states[i].clone()));
        let size = builder.size();
        let mut r = Box::pin(builder.build());
        let tail = chance(400).then(|| size - 22 - draw(100).min(size - 22));
        if let Some(t) = tail {
            r.as_mut().seek_from_start_pinned(t);
        }
        match calm_poll(&mut r, size + 1000, 65_536) {
            Err(e) => viol(K::UnexpErr, || format!("another archive: {e}")),
            Ok(got) => {
                let total = size - tail.unwrap_or(0);
                if got.len() as u64 != total {
                    viol(K::EarlyEof, || format!("another archive: {} of {total} bytes were read", got.len()));
                } else if let Some(f) = &self.first {
                    if f[tail.unwrap_or(0) as usize..] != got {
                        viol(K::Bytes, || "another archive with the same names is not the same as before".into());
                    }
                } else if tail.is_none() {
                    match Ref::from_bytes(got.clone(), &self.specs) {
                        Ok(_) => self.first = Some(got),
                        Err((_, e)) => viol(K::Bytes, || format!("another archive with the same names: {e}")),
                    }
                }
            }
        }
        let crcs: HashMap<String, u32> = r.crc32s().map(|(n, c)| (n.to_string(), c)).collect();
        for s in &self.specs {
            if let Some(c) = crcs.get(&s.name) {
                if *c != s.truth {
                    viol(K::CrcWrong, || format!("another archive: CRC of {:?} is {c:#x}, should be {:#x}", shorten(&s.name), s.truth));
                    break;
                }
            }
        }
        drop(r);
        w(|w| {
            w.chaos = limits.0;
            w.src_limit = limits.1;
        });
    }
}

pub fn run<D: Src>(
    p: &Prof,
    specs: Vec<ESpec>,
    states: Vec<Rc<SrcState>>,
    mk_ref: &dyn Fn(usize, &ESpec) -> D,
    mk: Box<dyn Fn(usize, &ESpec) -> D>,
) {
    w(|w| {
        w.chaos = false;
        let total: u64 = specs.iter().map(|s| s.size).sum();
        w.src_limit = 8 * total + 500_000;
    });
    let mut decoy = (!specs.is_empty() && chance(p.decoy)).then(|| Decoy::of(&specs));
    if let Some(d) = decoy.as_mut().filter(|_| chance(300)) {
        d.visit();
    }
    let Some(rf) = make_ref(&specs, mk_ref) else { return };
    if let Some(d) = decoy.as_mut().filter(|_| chance(600)) {
        d.visit();
    }
    let rf = Rc::new(rf);
    note(|| {
        format!(
            "entries: {:?}",
            specs
                .iter()
                .map(|s| (shorten(&s.name), s.size, s.supplied.is_some(), s.bad, s.clamp))
                .collect::<Vec<_>>()
        )
    });
    swarm(p);
    bound_reads(&specs);
    note(|| format!("disturbances: {:?}", w(|w| w.cfg.clone())));
    let opens_before = w(|w| w.next_token);
    let builder = make_builder(&specs, true, &*mk);
    if builder.size() != rf.len() {
        let (x, y) = (builder.size(), rf.len());
        viol(K::Size, || format!("builder announces {x} bytes, archive has {y}"));
    }
    if w(|w| w.next_token) != opens_before {
        viol(K::OpenUnjust, || "building opened a source".into());
    }
    let a = Arena {
        specs,
        rf,
        mk,
        states,
        builder,
    };
    w(|w| {
        w.chaos = true;
        w.errors_on = true;
    });
    play(p, &a);
    if let Some(d) = decoy.as_mut().filter(|_| !aborted()) {
        d.visit();
    }
}

/// The whole life of some readers of one archive: disturbed work, recovery, release.
pub fn play<D: Src>(p: &Prof, a: &Arena<D>) {
    let mut clients = vec![a.spawn()];
    if chance(300) && p.max_clients > 1 {
        clients.push(a.spawn());
    }
    for c in &mut clients {
        if chance(p.stream_first) {
            c.toggle_stream();
        }
    }
    let has_dyn = a.specs.iter().any(|s| s.bad == Some(Bad::Dyn));
    let sequential = chance(p.full_first);
    let mut pp = p.clone();
    if sequential {
        // A plain reader: no seeks, so whole passes happen under disturbance
        pp.w_seek = 0;
        pp.w_take /= 2;
    }
    let mut steps = 10 + draw(p.steps);
    if sequential {
        steps *= 3;
    }
    let (spurious,) = w(|w| (w.cfg.spurious,));
    for _ in 0..steps {
        if aborted() {
            break;
        }
        if has_dyn && chance(60) {
            change_length(a);
        }
        let ready: Vec<usize> = (0..clients.len())
            .filter(|&i| !clients[i].pending || clients[i].flag.is())
            .collect();
        if ready.is_empty() {
            if chance(spurious) || (p.w_seek > 0 && chance(120)) {
                let ci = draw(clients.len() as u64) as usize;
                client_step(&pp, a, &mut clients, ci);
            } else if !step_event() {
                viol(K::Stall, || "every reader is pending and nothing will ever wake them".into());
                break;
            }
        } else {
            if has_events() && chance(300) {
                step_event();
                continue;
            }
            let ci = pick(&ready);
            client_step(&pp, a, &mut clients, ci);
        }
    }
    if !aborted() {
        heal();
        for s in &a.states {
            s.broken.set(0);
        }
        for (s, st) in a.specs.iter().zip(&a.states) {
            if s.bad == Some(Bad::Dyn) && chance(700) {
                st.actual.set(s.size);
            }
        }
        for c in &mut clients {
            settle(c);
            if aborted() {
                break;
            }
        }
        // CRCs found by whoever read last make an identical archive
        if !aborted() && p.w_rebuild > 0 && chance(200) {
            let crcs = harvest(&clients[0]);
            let mut c = a.rebuild(&crcs);
            full_pass(&mut c, 8192);
            c.drop_reader();
        }
    }
    for c in &mut clients {
        c.drop_reader();
    }
    let live = w(|w| w.live.len());
    if live != 0 && !aborted() {
        viol(K::Leak, || format!("{live} sources stay open after everything was dropped"));
    }
}

fn content_vec(s: &ESpec) -> Vec<u8> {
    s.content.bytes(s.size)
}

/// Static slices for the time of one run.
struct Pool(Vec<Box<[u8]>>);

pub fn scenario(p: &Prof) {
    let mem = chance(p.memory_types);
    let mut g = p.generate.clone();
    if mem {
        g.bad_len = 0;
        g.bad_dyn = 0;
        g.clamp = 0;
    }
    // Wrong sources only in some of the runs
    if chance(300) {
        g.bad_len = 0;
    }
    if chance(300) {
        g.bad_crc = 0;
    }
    if chance(300) {
        g.bad_dyn = 0;
    }
    let specs = gen_spec(&g);
    if mem {
        match draw(4) {
            0 => run::<Vec<u8>>(p, specs, vec![], &|_, s| content_vec(s), Box::new(|_, s| content_vec(s))),
            1 => {
                let all: Vec<bytes::Bytes> = specs.iter().map(|s| content_vec(s).into()).collect();
                let b = all.clone();
                run::<bytes::Bytes>(p, specs, vec![], &|i, _| all[i].clone(), Box::new(move |i, _| b[i].clone()));
            }
            2 => {
                let all: Vec<std::sync::Arc<[u8]>> = specs.iter().map(|s| content_vec(s).into()).collect();
                let b = all.clone();
                run::<std::sync::Arc<[u8]>>(p, specs, vec![], &|i, _| all[i].clone(), Box::new(move |i, _| b[i].clone()));
            }
            _ => {
                let pool = Pool(specs.iter().map(|s| content_vec(s).into_boxed_slice()).collect());
                let all: Vec<&'static [u8]> = pool
                    .0
                    .iter()
                    .map(|b| {
                        // SAFETY: the pool outlives the run, nothing keeps the slices after it.
                        unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) }
                    })
                    .collect();
                let b = all.clone();
                run::<&'static [u8]>(p, specs, vec![], &|i, _| all[i], Box::new(move |i, _| b[i]));
                drop(pool);
            }
        }
        return;
    }
    let states: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, false)).collect();
    let healthy: Vec<Rc<SrcState>> = specs.iter().enumerate().map(|(i, s)| sim_state(i, s, true)).collect();
    let st = states.clone();
    if chance(350) {
        run::<SimData<PhantomPinned>>(
            p,
            specs,
            states,
            &|i, _| SimData::new(healthy[i].clone()),
            Box::new(move |i, _| SimData::new(st[i].clone())),
        );
    } else {
        run::<SimData<()>>(
            p,
            specs,
            states,
            &|i, _| SimData::new(healthy[i].clone()),
            Box::new(move |i, _| SimData::new(st[i].clone())),
        );
    }
}
