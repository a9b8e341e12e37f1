//! Generation of archives: entry specifications, builders, and the reference archive.

use crate::source::{Content, SimData, SrcState};
use crate::world::*;
use crate::zip::{self, Civil, FType, Layout, Want};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::HashMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, BuilderEntry, BytesStream, EntryData, FilesystemEntry, Reader};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// The source really has this length for the whole run
    Len(u64),
    /// The length of the source changes during the run
    Dyn,
    /// The supplied CRC is wrong
    Crc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Perm {
    Default,
    Ro(bool),
    Unix(u32),
}

#[derive(Clone, Debug)]
pub struct ESpec {
    pub name: String,
    pub content: Content,
    pub size: u64,
    pub truth: u32,
    pub supplied: Option<u32>,
    pub bad: Option<Bad>,
    pub clamp: bool,
    pub dt: Option<Civil>,
    pub ftype: FType,
    pub perm: Perm,
}

impl ESpec {
    pub fn want(&self) -> Want {
        let perm = match (&self.ftype, self.perm) {
            (FType::Symlink, _) => 0o777,
            (_, Perm::Unix(p)) => p & 0o777,
            (FType::Dir, Perm::Ro(true)) => 0o555,
            (FType::Dir, _) => 0o755,
            (FType::File, Perm::Ro(true)) => 0o444,
            (FType::File, _) => 0o644,
        };
        Want {
            name: self.name.as_bytes().to_vec(),
            size: self.size,
            crc: Some(self.truth),
            dos: zip::dos_datetime(self.dt.unwrap_or((1980, 1, 1, 0, 0, 0))),
            ftype: self.ftype.clone(),
            perm,
        }
    }

    pub fn apply<D: EntryData>(&self, e: &mut BuilderEntry<D>, crc: Option<u32>) {
        if let Some(c) = crc {
            e.crc32(c);
        }
        if let Some(d) = self.dt {
            let r = e.datetime_fields(d.0, d.1, d.2, d.3, d.4, d.5);
            if r.is_none() {
                viol(K::Meta, || format!("valid date-time {d:?} was refused"));
            }
        }
        match self.ftype {
            FType::File => {}
            FType::Dir => {
                e.directory();
            }
            FType::Symlink => {
                e.symlink();
            }
        }
        match self.perm {
            Perm::Default => {}
            Perm::Ro(ro) => {
                e.readonly(ro);
            }
            Perm::Unix(p) => {
                e.unix_permissions(p);
            }
        }
    }
}

/// Sizes around everything that could matter: zero, header sizes, read buffer sizes.
pub fn draw_size(max: u64) -> u64 {
    let s = match weighted(&[20, 15, 25, 12, 12, 10, 6]) {
        0 => draw(12),
        1 => 0,
        2 => draw(2000),
        3 => 8192 * (1 + draw(3)) + draw(5) - 2.min(draw(3)),
        4 => draw(30_000),
        5 => 4096 + draw(8192),
        _ => draw(300_000),
    };
    s.min(max)
}

pub fn draw_name(i: usize) -> String {
    let base = match weighted(&[50, 15, 10, 8, 8, 5, 2, 2]) {
        0 => String::new(),
        1 => "dir/sub dir/".into(),
        2 => "žluťoučký/𝄞/".into(),
        3 => "x".repeat(draw(400) as usize),
        4 => "n".repeat((8192 - 120 + draw(160)) as usize),
        5 => "PK\u{1}\u{2}PK\u{5}\u{6}\\..:*".into(),
        6 => "L".repeat(65_535 - 8 - draw(4) as usize),
        _ => "é".repeat(draw(5000) as usize),
    };
    if i == 0 && chance(100) {
        return base; // possibly the empty name
    }
    let mut s = format!("{base}{i}");
    if chance(100) {
        s.push('/');
    }
    s
}

pub fn draw_content() -> Content {
    match weighted(&[6, 1, 1]) {
        0 => Content::Prf(draw(1 << 40)),
        1 => Content::Byte(draw(256) as u8),
        _ => Content::Pk(draw(1 << 20)),
    }
}

pub fn draw_civil() -> Civil {
    let y = 1980 + draw(128) as i32;
    let m = 1 + draw(12) as u32;
    let d = 1 + draw(u64::from(zip::days_in_month(y, m))) as u32;
    (y, m, d, draw(24) as u32, draw(60) as u32, draw(60) as u32)
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_entries: u64,
    pub max_size: u64,
    pub supply: u64,
    pub bad_len: u64,
    pub bad_dyn: u64,
    pub bad_crc: u64,
    pub clamp: u64,
    /// Archives with much more data or many more entries than usual
    pub large: u64,
}

fn draw_entry(g: &GenCfg, name: String, size: u64) -> ESpec {
    let content = draw_content();
    let truth = content.crc(size);
    let mut supplied = chance(g.supply).then_some(truth);
    let mut bad = None;
    if size > 0 {
        if chance(g.bad_len) {
            let actual = match weighted(&[3, 3, 2, 1, 1]) {
                0 => size - 1 - draw(size.min(20)).min(size - 1),
                1 => size + 1 + draw(20),
                2 => size + draw(20_000) + 1,
                3 => draw(size),
                _ => 0,
            };
            bad = Some(Bad::Len(actual));
            fault(F::WrongLength);
        } else if chance(g.bad_dyn) {
            bad = Some(Bad::Dyn);
        } else if chance(g.bad_crc) {
            supplied = Some(truth ^ (1 + draw(u64::from(u32::MAX)) as u32));
            bad = Some(Bad::Crc);
            fault(F::WrongCrc);
        }
    }
    ESpec {
        name,
        content,
        size,
        truth,
        supplied,
        bad,
        clamp: chance(g.clamp),
        dt: chance(400).then(draw_civil),
        ftype: match weighted(&[8, 1, 1]) {
            0 => FType::File,
            1 => FType::Dir,
            _ => FType::Symlink,
        },
        perm: match weighted(&[4, 1, 1, 2]) {
            0 => Perm::Default,
            1 => Perm::Ro(true),
            2 => Perm::Ro(false),
            _ => Perm::Unix(draw(0o10000) as u32),
        },
    }
}

/// Entries beyond limits that somebody could have chosen for buffers, caches and tables.
fn gen_large(g: &GenCfg) -> Vec<ESpec> {
    let mut g = g.clone();
    let mut v = Vec::new();
    match weighted(&[5, 3, 2]) {
        0 => {
            probe("large_entries");
            let n = 1 + draw(3);
            for i in 0..n {
                let size = match weighted(&[3, 3, 3, 2, 1]) {
                    0 => 65_536 * (1 + draw(12)) + draw(5) - 2,
                    1 => 60_000 + draw(400_000),
                    2 => (1 << 20) + draw(600_000),
                    3 => (1 << (16 + draw(6))) + draw(5) - 2,
                    _ => 1_000_000 + draw(5_000_000),
                };
                if i > 0 && chance(300) {
                    let e = draw_entry(&g, draw_name(i as usize), draw(3000));
                    v.push(e);
                } else {
                    v.push(draw_entry(&g, draw_name(i as usize), size));
                }
            }
        }
        1 => {
            probe("large_directory");
            let n = match draw(4) {
                0 => 129 + draw(130),
                1 => 257 + draw(260),
                2 => 513 + draw(600),
                _ => 1025 + draw(2000),
            };
            for r in [&mut g.bad_len, &mut g.bad_dyn, &mut g.bad_crc] {
                *r = (*r * 10 / n).max(u64::from(*r > 0));
            }
            // Names mostly of the same length, like those of numbered files
            let other = pick(&[0, 1, 5, 100, 500]);
            let max = pick(&[1, 4, 20, 60]);
            for i in 0..n {
                let name = if chance(other) { format!("{i}-{}", "x".repeat(draw(40) as usize)) } else { format!("image-{i:05}") };
                let size = draw(max);
                v.push(draw_entry(&g, name, size));
            }
        }
        _ => {
            probe("large_count");
            let n = 60 + draw(250);
            for r in [&mut g.bad_len, &mut g.bad_dyn, &mut g.bad_crc] {
                *r = (*r * 10 / n).max(u64::from(*r > 0));
            }
            for i in 0..n {
                let name = format!("d{}/{i}", i % 7);
                let size = draw(3000);
                v.push(draw_entry(&g, name, size));
            }
        }
    }
    v
}

pub fn gen_spec(g: &GenCfg) -> Vec<ESpec> {
    if chance(g.large) {
        return gen_large(g);
    }
    let n = match weighted(&[60, 8, 6]) {
        0 => draw(5),
        1 => draw(12),
        _ => draw(60),
    }
    .min(g.max_entries);
    let total_budget = g.max_size * 2;
    let mut left = total_budget;
    let mut v: Vec<ESpec> = Vec::new();
    let mut name_left = 200_000usize;
    for i in 0..n as usize {
        let size = draw_size(g.max_size.min(left));
        left -= size;
        let mut name = draw_name(i);
        if name.len() > name_left {
            name = format!("{i}");
        }
        name_left -= name.len().min(name_left);
        v.push(draw_entry(g, name, size));
    }
    v
}

/// Types of entry data the simulation runs with.
pub trait Src: EntryData + Clone + 'static {
    /// Opening, reading and closing is observed by the simulator
    const SIM: bool;
    fn unpin_stream(s: Pin<Box<BytesStream<Self>>>) -> Result<BytesStream<Self>, Pin<Box<BytesStream<Self>>>>;
    fn unpin_reader(s: Pin<Box<Reader<Self>>>) -> Result<Reader<Self>, Pin<Box<Reader<Self>>>>;
}

macro_rules! movable {
    ($t:ty, $sim:expr) => {
        impl Src for $t {
            const SIM: bool = $sim;
            fn unpin_stream(
                s: Pin<Box<BytesStream<Self>>>,
            ) -> Result<BytesStream<Self>, Pin<Box<BytesStream<Self>>>> {
                Ok(*Pin::into_inner(s))
            }
            fn unpin_reader(s: Pin<Box<Reader<Self>>>) -> Result<Reader<Self>, Pin<Box<Reader<Self>>>> {
                Ok(*Pin::into_inner(s))
            }
        }
    };
}

movable!(SimData<()>, true);
movable!(Vec<u8>, false);
movable!(&'static [u8], false);
movable!(bytes::Bytes, false);
movable!(std::sync::Arc<[u8]>, false);
movable!(FilesystemEntry, false);

impl Src for SimData<std::marker::PhantomPinned> {
    const SIM: bool = true;
    fn unpin_stream(s: Pin<Box<BytesStream<Self>>>) -> Result<BytesStream<Self>, Pin<Box<BytesStream<Self>>>> {
        Err(s)
    }
    fn unpin_reader(s: Pin<Box<Reader<Self>>>) -> Result<Reader<Self>, Pin<Box<Reader<Self>>>> {
        Err(s)
    }
}

pub fn sim_state(i: usize, e: &ESpec, healthy: bool) -> Rc<SrcState> {
    Rc::new(SrcState {
        id: Cell::new(i),
        content: e.content.clone(),
        reported: e.size,
        actual: Cell::new(match e.bad {
            Some(Bad::Len(a)) if !healthy => a,
            _ => e.size,
        }),
        clamp_seek: e.clamp,
        broken: Cell::new(0),
    })
}

#[derive(Clone)]
enum SegKind {
    Raw(Vec<u8>),
    Data(Content),
}

#[derive(Clone)]
struct Seg {
    off: u64,
    len: u64,
    kind: SegKind,
}

/// Expected bytes of an archive, which may be too large to be stored.
#[derive(Clone, Default)]
pub struct Body {
    segs: Vec<Seg>,
}

impl Body {
    pub fn whole(bytes: Vec<u8>) -> Self {
        let mut b = Body::default();
        b.push_raw(bytes);
        b
    }
    fn end(&self) -> u64 {
        self.segs.last().map_or(0, |s| s.off + s.len)
    }
    pub fn push_raw(&mut self, bytes: Vec<u8>) {
        let off = self.end();
        self.segs.push(Seg { off, len: bytes.len() as u64, kind: SegKind::Raw(bytes) });
    }
    pub fn push_data(&mut self, c: Content, len: u64) {
        let off = self.end();
        self.segs.push(Seg { off, len, kind: SegKind::Data(c) });
    }
    /// Expected bytes `a..b`, which must be within the archive.
    pub fn slice(&self, a: u64, b: u64) -> Cow<'_, [u8]> {
        let mut i = self.segs.partition_point(|s| s.off + s.len <= a);
        if let Some(Seg { off, len, kind: SegKind::Raw(r) }) = self.segs.get(i) {
            if b <= off + len {
                return Cow::Borrowed(&r[(a - off) as usize..(b - off) as usize]);
            }
        }
        let mut out = Vec::with_capacity((b - a) as usize);
        let mut p = a;
        while p < b {
            let s = &self.segs[i];
            let e = b.min(s.off + s.len);
            match &s.kind {
                SegKind::Raw(r) => out.extend_from_slice(&r[(p - s.off) as usize..(e - s.off) as usize]),
                SegKind::Data(c) => {
                    let n = out.len();
                    out.resize(n + (e - p) as usize, 0);
                    c.fill(p - s.off, &mut out[n..]);
                }
            }
            p = e;
            i += 1;
        }
        Cow::Owned(out)
    }
    /// Changes bytes of a header.
    fn put(&mut self, at: u64, v: &[u8]) {
        for (k, byte) in v.iter().enumerate() {
            let a = at + k as u64;
            let i = self.segs.partition_point(|s| s.off + s.len <= a);
            if let Some(Seg { off, kind: SegKind::Raw(r), .. }) = self.segs.get_mut(i) {
                r[(a - *off) as usize] = *byte;
            }
        }
    }
}

/// The expected archive, with the layout found by the parser.
#[derive(Clone)]
pub struct Ref {
    pub body: Body,
    pub lay: Layout,
    pub specs: Vec<RefEnt>,
    pub bounds: Vec<u64>,
    pub by_name: HashMap<String, usize>,
    /// Checking all CRCs does not take long
    pub cheap_crcs: bool,
    pub has_bad: bool,
}

#[derive(Clone, Debug)]
pub struct RefEnt {
    pub name: String,
    pub size: u64,
    pub truth: u32,
    pub supplied: Option<u32>,
    pub bad: Option<Bad>,
}

impl RefEnt {
    pub fn all(specs: &[ESpec]) -> Vec<RefEnt> {
        specs
            .iter()
            .map(|s| RefEnt {
                name: s.name.clone(),
                size: s.size,
                truth: s.truth,
                supplied: s.supplied,
                bad: s.bad,
            })
            .collect()
    }
}

pub fn noop_waker() -> std::task::Waker {
    std::task::Waker::noop().clone()
}

/// Reads the archive in calm conditions to the end.
pub fn calm_read<D: EntryData>(reader: Reader<D>, limit: u64, cap: usize) -> Result<Vec<u8>, String> {
    calm_poll(&mut Box::pin(reader), limit, cap)
}

pub fn calm_poll<D: EntryData>(r: &mut Pin<Box<Reader<D>>>, limit: u64, cap: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let wk = WakeFlag::new();
    let waker = waker(&wk);
    let mut cx = Context::from_waker(&waker);
    let mut buf = vec![0u8; cap];
    loop {
        let mut rb = ReadBuf::new(&mut buf);
        w(|w| {
            w.src_ops_poll = 0;
            w.polls += 1;
        });
        wk.clear();
        match r.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => {
                while !wk.is() {
                    if !step_event() {
                        return Err("calm read is pending forever".into());
                    }
                }
            }
            Poll::Ready(Ok(())) => {
                if rb.filled().is_empty() {
                    return Ok(out);
                }
                out.extend_from_slice(rb.filled());
                if out.len() as u64 > limit {
                    return Err(format!("calm read produced more than {limit} bytes"));
                }
            }
            Poll::Ready(Err(e)) => return Err(format!("calm read failed: {e}")),
        }
    }
}

impl Ref {
    /// Checks the data in an archive against what it should be and builds the reference.
    pub fn from_bytes(bytes: Vec<u8>, specs: &[ESpec]) -> Result<Ref, (K, String)> {
        let lay = zip::parse(&mut bytes.as_slice()).map_err(|e| (K::Parse, e))?;
        let want: Vec<Want> = specs.iter().map(ESpec::want).collect();
        zip::compare(&lay, &want).map_err(|(meta, e)| (if meta { K::Meta } else { K::Spec }, e))?;
        for (e, s) in lay.ents.iter().zip(specs) {
            let data = &bytes[e.data_off as usize..e.dd_off as usize];
            if s.content.bytes(s.size) != data {
                return Err((K::Spec, format!("data of entry {:?} is wrong", shorten(&s.name))));
            }
        }
        Ok(Ref::with_layout(Body::whole(bytes), lay, RefEnt::all(specs)))
    }

    pub fn with_layout(mut body: Body, lay: Layout, specs: Vec<RefEnt>) -> Ref {
        let mut bounds = vec![0, lay.cd_off, lay.cd_end, lay.len];
        for e in &lay.ents {
            for b in [
                e.local_off,
                e.local_off + 30,
                e.local_off + 30 + e.name.len() as u64,
                e.data_off,
                e.dd_off,
                e.end,
                e.cd_off,
                e.cd_off + 46,
                e.cd_off + 46 + e.name.len() as u64,
                e.cd_end,
            ] {
                bounds.push(b);
            }
        }
        bounds.push(lay.len - 22);
        bounds.push(lay.len - 42);
        bounds.sort_unstable();
        bounds.dedup();
        for (e, s) in lay.ents.iter().zip(&specs) {
            if s.bad == Some(Bad::Crc) {
                let c = s.supplied.expect("a wrong crc is supplied").to_le_bytes();
                if let Some(o) = e.dd_crc_off {
                    body.put(o, &c);
                }
                body.put(e.cd_crc_off, &c);
            }
        }
        let by_name = specs.iter().enumerate().map(|(i, s)| (s.name.clone(), i)).collect();
        let cheap_crcs = specs.len() <= 16 && specs.iter().map(|s| s.name.len()).sum::<usize>() < 4000;
        let has_bad = specs.iter().any(|s| s.bad.is_some());
        Ref {
            body,
            lay,
            specs,
            bounds,
            by_name,
            cheap_crcs,
            has_bad,
        }
    }

    pub fn len(&self) -> u64 {
        self.lay.len
    }

    /// Index of the entry whose data (or its end) is at `pos`
    pub fn local_index(&self, pos: u64) -> Option<usize> {
        if pos >= self.lay.cd_off {
            return None;
        }
        Some(self.lay.ents.partition_point(|e| e.local_off <= pos) - 1)
    }

    pub fn cd_index(&self, pos: u64) -> Option<usize> {
        if pos < self.lay.cd_off || pos >= self.lay.cd_end {
            return None;
        }
        Some(self.lay.ents.partition_point(|e| e.cd_off <= pos) - 1)
    }

    /// Zone for coverage: what the next byte is, and how far in it.
    pub fn zone(&self, pos: u64) -> u64 {
        let part = |lo: u64, hi: u64| -> u64 {
            if pos == lo {
                0
            } else if pos.wrapping_add(1) == hi {
                2
            } else {
                1
            }
        };
        if let Some(i) = self.local_index(pos) {
            let e = &self.lay.ents[i];
            if pos < e.data_off {
                part(e.local_off, e.data_off)
            } else if pos < e.dd_off {
                4 + part(e.data_off, e.dd_off)
            } else {
                8 + part(e.dd_off, e.end)
            }
        } else if let Some(i) = self.cd_index(pos) {
            let e = &self.lay.ents[i];
            let first = u64::from(i == 0) * 4;
            12 + first + part(e.cd_off, e.cd_end)
        } else if pos < self.len() {
            20 + part(self.lay.cd_end, self.len())
        } else if pos == self.len() {
            24
        } else {
            25
        }
    }
}

pub fn shorten(s: &str) -> String {
    if s.len() > 60 {
        format!("{}...({} B)", s.chars().take(40).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

pub fn make_builder<D: Src>(specs: &[ESpec], with_crc: bool, mk: &dyn Fn(usize, &ESpec) -> D) -> Builder<D> {
    let mut b = Builder::new();
    for (i, s) in specs.iter().enumerate() {
        let d = mk(i, s);
        match b.add_entry(s.name.clone(), d) {
            Ok(e) => s.apply(e, if with_crc { s.supplied } else { None }),
            Err(e) => viol(K::Builder, || format!("valid entry {:?} was refused: {e}", shorten(&s.name))),
        }
    }
    b
}

/// Builds the reference of a set of entries from a calm sequential read of healthy sources.
pub fn make_ref<D: Src>(specs: &[ESpec], mk: &dyn Fn(usize, &ESpec) -> D) -> Option<Ref> {
    ref_of(make_builder(specs, false, mk), specs)
}

/// The same for an existing builder, which should contain the given entries.
pub fn ref_of<D: Src>(b: Builder<D>, specs: &[ESpec]) -> Option<Ref> {
    let announced = b.size();
    let again = b.clone();
    let reader = b.build();
    if reader.size() != announced {
        viol(K::Size, || format!("builder announced {announced}, reader {}", reader.size()));
    }
    let limit = announced.saturating_add(1 << 20);
    let bytes = match calm_read(reader, limit, 65536) {
        Ok(b) => b,
        Err(e) => {
            viol(K::UnexpErr, || e);
            return None;
        }
    };
    if bytes.len() as u64 != announced {
        viol(K::Size, || format!("announced {announced} bytes, produced {}", bytes.len()));
    }
    let len = bytes.len();
    let head = bytes.clone();
    let result = Ref::from_bytes(bytes, specs);
    if result.is_err() || chance(30) {
        // Is it the same with other buffer sizes?
        let caps: &[usize] = if result.is_err() { &[8192, 977, 61, 100_000] } else { &[977] };
        for &cap in caps {
            let cap = if len > 300_000 { cap.max(500) } else { cap };
            match calm_read(again.clone().build(), limit, cap) {
                Ok(b) => {
                    if b != head {
                        let at = b.iter().zip(&head).position(|(x, y)| x != y).unwrap_or(b.len().min(len));
                        viol(K::Bytes, || format!("calm reads with buffers of {cap} and 65536 bytes differ at byte {at}"));
                        return None;
                    }
                }
                Err(e) => viol(K::UnexpErr, || e),
            }
        }
    }
    match result {
        Ok(r) => Some(r),
        Err((k, e)) => {
            viol(k, || e);
            None
        }
    }
}
