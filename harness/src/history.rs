//! Histories of building: additions that are refused or fail, edits, forks (C03, C19),
//! and metadata under a simulated clock (C20).

use crate::big;
use crate::client::*;
use crate::core::*;
use crate::source::*;
use crate::spec::*;
use crate::world::*;
use crate::zip::{self, Civil, FType};
use std::os::unix::fs::PermissionsExt as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use zippity::{AddEntryError, Builder, BuilderEntry};

type Data = SimData<()>;

/// Data whose conversion fails by a panic, as a caller's code might.
struct Fragile(Data, bool);

impl From<Fragile> for Data {
    fn from(f: Fragile) -> Data {
        if f.1 {
            std::panic::panic_any(SimAbort("conversion of data panics"));
        }
        f.0
    }
}

struct Fork {
    b: Builder<Data>,
    specs: Vec<ESpec>,
    states: Vec<Rc<SrcState>>,
}

impl Fork {
    fn total(&self) -> u64 {
        self.specs.iter().map(|s| s.size).fold(0, u64::saturating_add)
    }
    fn has(&self, n: &str) -> bool {
        self.specs.iter().any(|s| s.name == n)
    }
    fn check(&self, after: &str) {
        let names: Vec<&String> = self.b.get_entries().keys().collect();
        if names.len() != self.specs.len() || names.iter().zip(&self.specs).any(|(a, s)| **a != s.name) {
            let (have, want) = (names.len(), self.specs.len());
            viol(K::Builder, || format!("after {after}: the builder has {have} entries, or other ones than the {want} that were added"));
            return;
        }
        let size = self.b.size();
        let built = match catch_unwind(AssertUnwindSafe(|| self.b.clone().build())) {
            Ok(r) => r,
            Err(_) => {
                viol(K::Builder, || format!("after {after}: build() panics"));
                return;
            }
        };
        if built.size() != size {
            let z = built.size();
            viol(K::Size, || format!("after {after}: builder announces {size}, the built reader {z}"));
        }
        if size < self.total() {
            viol(K::Size, || format!("after {after}: the size {size} is less than the data in the archive"));
        }
        if w(|w| w.next_token) != 0 {
            viol(K::OpenUnjust, || format!("{after} opened a source"));
        }
    }
}

fn history_spec(name: String, size: u64) -> ESpec {
    let content = if size > 1 << 20 { Content::Byte(draw(256) as u8) } else { draw_content() };
    let truth = content.crc(size);
    ESpec {
        name,
        content,
        size,
        truth,
        supplied: (size > 1 << 20 || chance(200)).then_some(truth),
        bad: None,
        clamp: false,
        dt: chance(300).then(draw_civil),
        ftype: match draw(4) {
            1 => FType::Dir,
            2 => FType::Symlink,
            _ => FType::File,
        },
        perm: match draw(4) {
            1 => Perm::Ro(true),
            2 => Perm::Unix(draw(0o10000) as u32),
            _ => Perm::Default,
        },
    }
}

fn any_size() -> u64 {
    match weighted(&[8, 4, 2, 2]) {
        0 => draw(2000),
        1 => draw_size(40_000),
        2 => 1 << (20 + draw(40)),
        _ => 0,
    }
}

fn add(f: &mut Fork, s: ESpec, panics: bool) {
    let before = f.b.size();
    let st = sim_state(f.specs.len(), &s, true);
    let dup = f.has(&s.name);
    let long = s.name.len() > 65_535;
    let nn = 2 * s.name.len() as u64;
    let must_refuse = before.checked_add(s.size).and_then(|x| x.checked_add(nn + 76)).is_none();
    let must_fit = before.checked_add(s.size).and_then(|x| x.checked_add(nn + 400)).is_some();
    ev("add", s.name.len() as u64, s.size);
    let b = &mut f.b;
    let data = Fragile(Data::new(st.clone()), panics);
    let name = s.name.clone();
    // The outcome: accepted / refused with (kind, name) / panicked
    enum Got {
        Added,
        Refused(u8, String),
        Panicked,
    }
    let got = catch_unwind(AssertUnwindSafe(|| match b.add_entry(name, data) {
        Ok(e) => {
            s.apply(e, s.supplied);
            Got::Added
        }
        Err(AddEntryError::TooLongEntryName { entry_name }) => Got::Refused(0, entry_name),
        Err(AddEntryError::DuplicateEntryName { entry_name }) => Got::Refused(1, entry_name),
        Err(AddEntryError::TooLongZipFile { entry_name }) => Got::Refused(2, entry_name),
        Err(_) => Got::Refused(9, String::new()),
    }))
    .unwrap_or(Got::Panicked);
    match got {
        Got::Panicked => {
            if panics {
                probe("data_conversion_panicked");
            } else {
                viol(K::Panic, || format!("adding {:?} of {} B panics", shorten(&s.name), s.size));
            }
        }
        Got::Added => {
            if long || dup || must_refuse || panics {
                viol(K::Builder, || {
                    format!("adding {:?} of {} B was accepted (duplicate {dup}, name too long {long}, archive too large {must_refuse})", shorten(&s.name), s.size)
                });
                return;
            }
            let grown = f.b.size().wrapping_sub(before);
            if f.b.size() < before || grown < s.size + nn + 76 {
                viol(K::Size, || format!("size grew by {grown} after adding {} B", s.size));
            }
            probe("accepted");
            f.specs.push(s);
            f.states.push(st);
        }
        Got::Refused(k, n) => {
            if !long && !dup && must_fit {
                viol(K::Builder, || format!("a valid addition of {:?} ({} B) was refused", shorten(&s.name), s.size));
            }
            let right = match k {
                0 => long,
                1 => dup,
                2 => !must_fit,
                _ => false,
            };
            if !right || n != s.name {
                viol(K::Builder, || format!("wrong reason {k} of refusing {:?}, or other name {:?}", shorten(&s.name), shorten(&n)));
            }
            probe(match k {
                0 => "refused_long_name",
                1 => "refused_duplicate",
                _ => "refused_too_large",
            });
        }
    }
}

fn new_name(f: &Fork, i: usize) -> String {
    for k in 0..20 {
        let n = draw_name(i + 1000 * k);
        if !f.has(&n) {
            return n;
        }
    }
    format!("unique{i}-{}", f.specs.len())
}

fn step(forks: &mut Vec<Fork>, i: usize, structural: bool) {
    let n = forks.len() as u64;
    let fi = draw(n) as usize;
    let f = &mut forks[fi];
    let what = weighted(&[30, 8, 6, 8, 8, 5, if structural { 12 } else { 0 }, 4, 3]);
    let name = ["add", "duplicate add", "add with too long name", "too large add", "edit", "fork", "structural edit", "build", "panicking add"][what];
    match what {
        0 => {
            let name = if chance(60) { "m".repeat((65_535 - draw(3)) as usize) } else { new_name(f, i) };
            let s = history_spec(name, any_size());
            add(f, s, false);
        }
        1 => {
            if f.specs.is_empty() {
                return;
            }
            let k = draw(f.specs.len() as u64) as usize;
            let s = history_spec(f.specs[k].name.clone(), any_size());
            add(f, s, false);
        }
        2 => {
            let len = pick(&[65_536usize, 65_537, 70_000, 131_072, 65_536 + 10]);
            let n = if chance(500) { "é".repeat(len / 2 + len % 2) } else { "q".repeat(len) };
            let s = history_spec(n, any_size());
            add(f, s, false);
        }
        3 => {
            // Around the largest size that fits
            let room = u64::MAX - f.b.size();
            let size = match draw(4) {
                0 => u64::MAX,
                1 => room,
                2 => room.saturating_sub(draw(600)),
                _ => room.saturating_sub(draw(3000)),
            };
            let mut s = history_spec(new_name(f, i), size);
            // The data are never opened, if this is refused or not
            s.supplied = Some(s.truth);
            add(f, s, false);
        }
        4 => {
            if f.specs.is_empty() {
                return;
            }
            let k = draw(f.specs.len() as u64) as usize;
            let fresh = history_spec(String::new(), 0);
            let s = &mut f.specs[k];
            ev("edit", k as u64, 0);
            match f.b.get_entries_mut().get_mut(&s.name) {
                Some(e) => {
                    s.ftype = fresh.ftype;
                    match s.ftype {
                        FType::File => e.file(),
                        FType::Dir => e.directory(),
                        FType::Symlink => e.symlink(),
                    };
                    if fresh.perm != Perm::Default {
                        s.perm = fresh.perm;
                        match s.perm {
                            Perm::Ro(r) => e.readonly(r),
                            Perm::Unix(p) => e.unix_permissions(p),
                            Perm::Default => e,
                        };
                    }
                    if let Some(d) = fresh.dt {
                        if e.datetime_fields(d.0, d.1, d.2, d.3, d.4, d.5).is_some() {
                            s.dt = Some(d);
                        }
                    }
                }
                None => viol(K::Builder, || "an added entry can't be found".into()),
            }
        }
        5 => {
            if n < 3 {
                ev("fork", 0, 0);
                let c = Fork { b: f.b.clone(), specs: f.specs.clone(), states: f.states.clone() };
                forks.push(c);
                return;
            }
        }
        6 => {
            ev("restructure", 0, 0);
            let len = f.specs.len();
            match draw(4) {
                0 if len > 0 => {
                    let k = draw(len as u64) as usize;
                    let nm = f.specs[k].name.clone();
                    f.b.get_entries_mut().shift_remove(&nm);
                    f.specs.remove(k);
                    f.states.remove(k);
                }
                1 if len > 1 => {
                    let (a, b) = (draw(len as u64) as usize, draw(len as u64) as usize);
                    f.b.get_entries_mut().swap_indices(a, b);
                    f.specs.swap(a, b);
                    f.states.swap(a, b);
                }
                2 if len > 0 && f.total() < 1 << 62 => {
                    // A copy of an entry under another name
                    let k = draw(len as u64) as usize;
                    let nn = new_name(f, i);
                    let e: BuilderEntry<Data> = f.b.get_entries()[&f.specs[k].name].clone();
                    f.b.get_entries_mut().insert(nn.clone(), e);
                    let mut s = f.specs[k].clone();
                    s.name = nn;
                    f.specs.push(s);
                    let st = f.states[k].clone();
                    f.states.push(st);
                }
                _ => {
                    let k = draw(len as u64 + 1) as usize;
                    f.b.get_entries_mut().truncate(k);
                    f.specs.truncate(k);
                    f.states.truncate(k);
                }
            }
        }
        7 => {}
        _ => {
            let s = history_spec(new_name(f, i), draw(100));
            add(f, s, true);
        }
    }
    for f in forks.iter() {
        f.check(name);
    }
}

/// Histories of operations on builders.
pub fn builder(structural: bool) {
    w(|w| {
        w.chaos = false;
        w.src_limit = 2_000_000;
    });
    let mut forks = vec![Fork { b: if chance(500) { Builder::new() } else { Builder::default() }, specs: vec![], states: vec![] }];
    forks[0].check("creation");
    let steps = 1 + draw(30) as usize;
    for i in 0..steps {
        step(&mut forks, i, structural);
        if aborted() {
            return;
        }
    }
    // Every fork has to give exactly its entries
    for f in forks {
        finish_builder(f);
        if aborted() {
            return;
        }
    }
}

fn finish_builder(f: Fork) {
    let Fork { b, specs, states } = f;
    let total = specs.iter().map(|s| s.size).fold(0, u64::saturating_add);
    w(|w| w.chaos = false);
    // CRCs of the data which were opened while building the reference are checked by the parser
    let st = states.clone();
    let mk = Box::new(move |i: usize, _: &ESpec| Data::new(st[i].clone()));
    let rf = if total < 2_000_000 {
        ref_of(b.clone(), &specs)
    } else {
        big::window_ref(b.clone().build(), &specs)
    };
    let Some(rf) = rf else { return };
    let rf = Rc::new(rf);
    if b.size() != rf.len() {
        let (x, y) = (b.size(), rf.len());
        viol(K::Size, || format!("builder announces {x}, archive has {y}"));
    }
    // Entries which share a source can't be told apart by who is opened
    let shared = (1..states.len()).any(|i| states[..i].iter().any(|s| Rc::ptr_eq(s, &states[i])));
    for (i, s) in states.iter().enumerate() {
        s.id.set(i);
    }
    if total < 2_000_000 && !shared && chance(500) {
        swarm(&Prof::default());
        let a = Arena { specs, rf: rf.clone(), mk, states, builder: b };
        w(|w| w.chaos = true);
        let mut c = a.spawn();
        c.seek(0, 0);
        full_pass(&mut c, pick(&[8192, 500, 30_000]));
        if !aborted() && c.pos != rf.len() {
            let p = c.pos;
            viol(K::EarlyEof, || format!("read ended at {p}"));
        }
        c.drop_reader();
    }
}

// ------------------------------------------------------------------------------------------
// Metadata and clocks

/// How the builder converts system times at the moment.
#[derive(Clone, Debug)]
pub enum Conv {
    None,
    /// Offset from UTC in seconds, through chrono
    Offset(i32),
    /// A time zone with summer and winter time, through chrono
    Dst(i32, i32),
    /// Own conversion function: UTC
    Own,
    /// A conversion function which always returns this
    Fixed(Civil),
}

pub fn valid_civil(c: &Civil) -> bool {
    (1980..=2107).contains(&c.0) && (1..=12).contains(&c.1) && (1..=31).contains(&c.2) && c.3 < 24 && c.4 < 60 && c.5 < 60
}

pub fn unix_secs(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => i128::from(d.as_secs()),
        Err(e) => {
            let d = e.duration();
            -(i128::from(d.as_secs()) + i128::from(d.subsec_nanos() > 0))
        }
    }
}

fn own_conversion(t: SystemTime) -> (i32, u32, u32, u32, u32, u32) {
    let c = zip::civil_from_unix(unix_secs(t));
    (i32::try_from(c.0).unwrap_or(i32::MAX), c.1, c.2, c.3, c.4, c.5)
}

fn is_summer(month: u32) -> bool {
    (4..=9).contains(&month)
}

/// The offset depends on the month in UTC.
#[derive(Clone, Copy, Debug)]
struct Dst {
    winter: i32,
    summer: i32,
}

impl Dst {
    fn at(self, month: u32) -> chrono::FixedOffset {
        chrono::FixedOffset::east_opt(if is_summer(month) { self.summer } else { self.winter }).expect("offset in range")
    }
}

impl chrono::TimeZone for Dst {
    type Offset = DstOffset;
    fn from_offset(o: &DstOffset) -> Dst {
        o.0
    }
    fn offset_from_local_date(&self, d: &chrono::NaiveDate) -> chrono::LocalResult<DstOffset> {
        chrono::LocalResult::Single(DstOffset(*self, chrono::Datelike::month(d)))
    }
    fn offset_from_local_datetime(&self, d: &chrono::NaiveDateTime) -> chrono::LocalResult<DstOffset> {
        self.offset_from_local_date(&d.date())
    }
    fn offset_from_utc_date(&self, d: &chrono::NaiveDate) -> DstOffset {
        DstOffset(*self, chrono::Datelike::month(d))
    }
    fn offset_from_utc_datetime(&self, d: &chrono::NaiveDateTime) -> DstOffset {
        self.offset_from_utc_date(&d.date())
    }
}

#[derive(Clone, Copy, Debug)]
struct DstOffset(Dst, u32);

impl chrono::Offset for DstOffset {
    fn fix(&self) -> chrono::FixedOffset {
        self.0.at(self.1)
    }
}

impl Conv {
    pub fn draw() -> Conv {
        match draw(6) {
            0 => Conv::None,
            5 => {
                let winter = draw(2 * 80_000 + 1) as i32 - 80_000;
                Conv::Dst(winter, winter + pick(&[3600, -3600, 1800, 4000]))
            }
            1 => Conv::Offset(0),
            2 => Conv::Offset(draw(2 * 86_399 + 1) as i32 - 86_399),
            3 => Conv::Own,
            _ => {
                if chance(500) {
                    Conv::Fixed(draw_civil())
                } else {
                    Conv::Fixed(bad_civil())
                }
            }
        }
    }
    pub fn install<D: zippity::EntryData>(&self, b: &mut Builder<D>) {
        match *self {
            Conv::None => {}
            Conv::Offset(0) => {
                b.system_time_timezone(chrono::Utc);
            }
            Conv::Offset(o) => {
                b.system_time_timezone(chrono::FixedOffset::east_opt(o).expect("offset in range"));
            }
            Conv::Dst(winter, summer) => {
                b.system_time_timezone(Dst { winter, summer });
            }
            Conv::Own => {
                b.system_time_converter(own_conversion);
            }
            Conv::Fixed(c) => {
                b.system_time_converter(move |_| c);
            }
        }
    }
    /// What is stored for a time; None if it can't be represented.
    pub fn convert(&self, t: SystemTime) -> Option<Civil> {
        let c = match self {
            Conv::None => return None,
            Conv::Offset(o) => {
                let c = zip::civil_from_unix(unix_secs(t) + i128::from(*o));
                (i32::try_from(c.0).ok()?, c.1, c.2, c.3, c.4, c.5)
            }
            Conv::Dst(winter, summer) => {
                let u = zip::civil_from_unix(unix_secs(t));
                let o = if is_summer(u.1) { summer } else { winter };
                let c = zip::civil_from_unix(unix_secs(t) + i128::from(*o));
                (i32::try_from(c.0).ok()?, c.1, c.2, c.3, c.4, c.5)
            }
            Conv::Own => own_conversion(t),
            Conv::Fixed(c) => *c,
        };
        valid_civil(&c).then_some(c)
    }
}

fn bad_civil() -> Civil {
    let mut c = draw_civil();
    match draw(9) {
        0 => c.0 = 1979,
        1 => c.0 = 2108,
        2 => c.0 = pick(&[i32::MIN, i32::MAX, 0, -1, 1980 + 65_536, 1980 - 65_536]),
        3 => c.1 = pick(&[0, 13, 65_537, u32::MAX, 16 + 1]),
        4 => c.2 = pick(&[0, 32, 65_537, u32::MAX]),
        5 => c.3 = pick(&[24, 65_536, u32::MAX, 32]),
        6 => c.4 = pick(&[60, 65_536, u32::MAX, 64]),
        7 => c.5 = pick(&[60, 61, 131_072, u32::MAX, 64]),
        _ => {
            c.0 = 1979;
            c.1 = 12;
            c.2 = 31;
        }
    }
    c
}

/// What a clock may report: usual times, times around the limits, and nonsense.
pub fn draw_time() -> SystemTime {
    let first = 315_532_800i64; // 1980-01-01
    let last = 4_354_819_200i64; // 2108-01-01
    let secs: i64 = match weighted(&[6, 4, 4, 2, 2, 3]) {
        0 => first + draw((last - first) as u64) as i64,
        1 => first + draw(200_000) as i64 - 100_000,
        2 => last + draw(200_000) as i64 - 100_000,
        3 => draw(100) as i64 - 50,
        4 => pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, -62_135_596_800, 253_402_300_800, i64::from(u32::MAX), i64::from(i32::MAX), i64::from(i32::MIN)]),
        _ => (draw(u64::MAX) as i64) >> draw(40),
    };
    if !(first..last).contains(&secs) {
        fault(F::ClockSkew);
    }
    let nanos = pick(&[0, 1, 500_000_000, 999_999_999]);
    let base = if secs >= 0 {
        UNIX_EPOCH.checked_add(Duration::from_secs(secs as u64))
    } else {
        UNIX_EPOCH.checked_sub(Duration::from_secs(secs.unsigned_abs()))
    };
    let base = base.unwrap_or(UNIX_EPOCH);
    base.checked_add(Duration::from_nanos(nanos)).unwrap_or(base)
}

pub fn scratch() -> PathBuf {
    let base = std::env::var_os("ZSIM_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
    base.join(format!("w{}", std::process::id()))
}

pub fn set_times(p: &Path, t: SystemTime) {
    use std::os::unix::ffi::OsStrExt as _;
    let Ok(c) = std::ffi::CString::new(p.as_os_str().as_bytes()) else { return };
    let secs = unix_secs(t);
    let nanos = match t.duration_since(UNIX_EPOCH) {
        Ok(d) => i64::from(d.subsec_nanos()),
        Err(e) => match e.duration().subsec_nanos() {
            0 => 0,
            n => 1_000_000_000 - i64::from(n),
        },
    };
    let Ok(secs) = i64::try_from(secs) else { return };
    let ts = libc::timespec { tv_sec: secs, tv_nsec: nanos };
    // SAFETY: valid pointers for the time of the call; the path is inside of the scratch directory.
    unsafe {
        libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [ts, ts].as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
}

fn naive(c: &Civil) -> Option<chrono::NaiveDateTime> {
    chrono::NaiveDate::from_ymd_opt(c.0, c.1, c.2)?.and_hms_opt(c.3, c.4, c.5)
}

fn meta_op(e: &mut BuilderEntry<Data>, s: &mut ESpec, conv: &Conv, dir: &Path, seq: &mut u32) {
    let what = draw(13);
    ev("meta", what, 0);
    let refused = |was: bool, ok: bool, what: &str| {
        if was != ok {
            viol(K::Meta, || format!("{what}: accepted {was}, should be {ok}"));
        }
    };
    match what {
        0 | 1 => {
            let c = if what == 0 || chance(500) { draw_civil() } else { bad_civil() };
            let ok = valid_civil(&c);
            if chance(500) {
                let r = e.datetime_fields(c.0, c.1, c.2, c.3, c.4, c.5).is_some();
                refused(r, ok, &format!("datetime_fields {c:?}"));
                if ok {
                    s.dt = Some(c);
                }
            } else {
                e.datetime_fields_or_default(c.0, c.1, c.2, c.3, c.4, c.5);
                s.dt = ok.then_some(c);
            }
        }
        2 | 3 => {
            let t = draw_time();
            let c = conv.convert(t);
            if chance(500) {
                let r = e.datetime_system(t).is_some();
                refused(r, c.is_some(), &format!("datetime_system {t:?} by {conv:?}"));
                if c.is_some() {
                    s.dt = c;
                }
            } else {
                e.datetime_system_or_default(t);
                s.dt = c;
            }
        }
        4 | 5 => {
            let mut c = draw_civil();
            if chance(300) {
                c.0 = pick(&[1979, 2108, 0, -5, 9999, 262_000]);
            }
            if let Some(n) = naive(&c) {
                let ok = valid_civil(&c);
                if chance(500) {
                    let r = e.datetime(n).is_some();
                    refused(r, ok, &format!("datetime {c:?}"));
                    if ok {
                        s.dt = Some(c);
                    }
                } else {
                    e.datetime_or_default(n);
                    s.dt = ok.then_some(c);
                }
            }
        }
        6 => {
            e.file();
            s.ftype = FType::File;
        }
        7 => {
            e.directory();
            s.ftype = FType::Dir;
        }
        8 => {
            e.symlink();
            s.ftype = FType::Symlink;
        }
        9 => {
            let p = pick(&[draw(0o1000) as u32, 0, 0o777, 0o7777, 0o100_644, u32::MAX]);
            e.unix_permissions(p);
            s.perm = Perm::Unix(p);
        }
        10 => {
            let ro = chance(500);
            e.readonly(ro);
            s.perm = Perm::Ro(ro);
        }
        11 => {
            let p = draw(0o10000) as u32;
            e.permissions(&std::fs::Permissions::from_mode(p));
            s.perm = Perm::Unix(p);
        }
        _ => {
            *seq += 1;
            let path = dir.join(format!("o{seq}"));
            let kind = draw(3);
            let made = match kind {
                0 => std::fs::write(&path, b"x"),
                1 => std::fs::create_dir(&path),
                _ => std::os::unix::fs::symlink("target", &path),
            };
            if made.is_err() {
                return;
            }
            let mode = draw(0o10000) as u32;
            if kind != 2 {
                let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(mode));
            }
            set_times(&path, draw_time());
            let Ok(m) = std::fs::symlink_metadata(&path) else { return };
            e.metadata(&m);
            s.ftype = match kind {
                0 => FType::File,
                1 => FType::Dir,
                _ => FType::Symlink,
            };
            s.perm = Perm::Unix(m.permissions().mode());
            if let Ok(t) = m.modified() {
                s.dt = conv.convert(t);
            }
            probe("file_metadata_applied");
        }
    }
}

/// Metadata set in any order, under any clock.
pub fn meta() {
    w(|w| {
        w.chaos = false;
        w.src_limit = 2_000_000;
    });
    let dir = scratch();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut b: Builder<Data> = Builder::new();
    let mut conv = Conv::None;
    let mut specs: Vec<ESpec> = Vec::new();
    let mut convs: Vec<Conv> = Vec::new();
    let mut seq = 0;
    let n = 1 + draw(6) as usize;
    for i in 0..n {
        if chance(500) {
            let c = Conv::draw();
            if !matches!(c, Conv::None) {
                c.install(&mut b);
                conv = c;
            }
        }
        let mut s = history_spec(format!("e{i}"), draw(20));
        s.dt = None;
        s.ftype = FType::File;
        s.perm = Perm::Default;
        s.supplied = None;
        let st = sim_state(i, &s, true);
        match b.add_entry(s.name.clone(), Data::new(st)) {
            Ok(e) => {
                for _ in 0..draw(6) {
                    meta_op(e, &mut s, &conv, &dir, &mut seq);
                }
            }
            Err(e) => viol(K::Builder, || format!("valid addition was refused: {e}")),
        }
        specs.push(s);
        convs.push(conv.clone());
        if chance(300) {
            // Later edits use the converter of the time when the entry was added
            let k = draw(specs.len() as u64) as usize;
            let name = specs[k].name.clone();
            if chance(200) {
                b = b.clone();
            }
            if let Some(e) = b.get_entries_mut().get_mut(&name) {
                for _ in 0..1 + draw(3) {
                    meta_op(e, &mut specs[k], &convs[k], &dir, &mut seq);
                }
            }
        }
        if aborted() {
            break;
        }
    }
    note(|| format!("entries: {specs:?}\nconverters: {convs:?}"));
    if !aborted() {
        if let Some(rf) = ref_of(b.clone(), &specs) {
            let rf = Rc::new(rf);
            let mut c = Client::new(b.build(), rf);
            full_pass(&mut c, 4096);
            c.drop_reader();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
