//! Directory archives: scans and reads of real files in a scratch directory. Every file system
//! operation is scheduled, shortened, reordered or failed by the simulator.

use crate::client::*;
use crate::core::*;
use crate::history::*;
use crate::http;
use crate::source::Content;
use crate::spec::*;
use crate::world::*;
use crate::zip::{self, FType};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::fs;
use std::future::Future;
use std::io;
use std::os::unix::ffi::{OsStrExt as _, OsStringExt as _};
use std::os::unix::fs::PermissionsExt as _;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::{Duration, UNIX_EPOCH};
use tokio::fs::sim::{FsHook, Job, install};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{Builder, FilesystemEntry, Reader};

/// Decides about the file system operations of the run.
struct Hook {
    ops: Rc<Cell<u64>>,
    /// Client and its generation for which the operation runs
    owner: Rc<Cell<(usize, u64)>>,
}

impl Hook {
    fn error(&self, what: &'static str) -> Option<io::Error> {
        let rate = w(|w| if w.chaos && w.errors_on && w.cfg.err_budget > 0 { w.cfg.fs_err } else { 0 });
        if !chance(rate) {
            return None;
        }
        fault(F::FsError);
        note(|| format!("file operation fails: {what}"));
        let (client, g) = self.owner.get();
        w(|w| {
            w.cfg.err_budget -= 1;
            if w.gens.get(&client).copied().unwrap_or(0) == g {
                *w.fs_errs.entry(client).or_insert(0) += 1;
            }
        });
        let code = pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EINTR, libc::ESTALE, libc::ENOMEM, libc::ELOOP, libc::ENOTDIR, libc::EPERM]);
        Some(io::Error::from_raw_os_error(code))
    }
}

impl FsHook for Hook {
    fn submit(&self, label: &'static str, job: Job) {
        let client = w(|w| {
            w.pends += 1;
            w.cur
        });
        let g = w(|w| w.gens.get(&client).copied().unwrap_or(0));
        self.ops.set(self.ops.get() + 1);
        if self.ops.get() > 3_000_000 {
            viol(K::Unbounded, || "file system operations never end".into());
            std::panic::panic_any(SimAbort("unbounded file operations"));
        }
        let delay = draw_delay();
        let owner = self.owner.clone();
        // Labels are type names, which may be long; the length is enough to tell them apart
        ev("fs.submit", client as u64, 0);
        let _ = label;
        after(
            delay,
            Box::new(move || {
                let cur = w(|w| w.cur);
                w(|w| w.cur = client);
                owner.set((client, g));
                ev("fs.run", client as u64, 0);
                job();
                owner.set((usize::MAX, 0));
                w(|w| w.cur = cur);
            }),
        );
    }

    fn fault_before(&self, label: &'static str) -> Option<io::Error> {
        self.error(label)
    }

    fn read_limit(&self, wanted: usize) -> io::Result<usize> {
        if let Some(e) = self.error("read") {
            return Err(e);
        }
        let (short, max) = w(|w| if w.chaos { (w.cfg.short, w.cfg.short_max) } else { (0, 1) });
        if wanted > 1 && chance(short) {
            fault(F::FsShort);
            return Ok(wanted.min(1 + draw(max) as usize));
        }
        Ok(wanted)
    }

    fn arrange_dir(&self, names: &[OsString]) -> Vec<Result<usize, io::Error>> {
        let mut order: Vec<usize> = (0..names.len()).collect();
        if w(|w| w.chaos) && names.len() > 1 {
            fault(F::FsReorder);
            match draw(4) {
                0 => {}
                1 => order.reverse(),
                _ => {
                    for i in (1..order.len()).rev() {
                        let j = draw(i as u64 + 1) as usize;
                        order.swap(i, j);
                    }
                }
            }
        }
        let mut out: Vec<Result<usize, io::Error>> = Vec::new();
        for i in order {
            if let Some(e) = self.error("listing") {
                out.push(Err(e));
                // Some file systems go on after an error, others do not
                if chance(500) {
                    return out;
                }
            }
            out.push(Ok(i));
        }
        out
    }
}

struct HookGuard;

impl Drop for HookGuard {
    fn drop(&mut self) {
        install(None);
    }
}

#[derive(Clone, Debug)]
enum Kind {
    File(Content, u64),
    Dir,
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
struct Node {
    rel: PathBuf,
    kind: Kind,
}

/// A directory tree and what its archive should be.
struct Tree {
    root: PathBuf,
    nodes: Vec<Node>,
}

fn draw_file_name(i: usize) -> OsString {
    let mut v: Vec<u8> = match weighted(&[40, 6, 5, 4, 4, 3, 3, 3, 2]) {
        0 => format!("f{i}").into_bytes(),
        1 => format!("mezera a {i}").into_bytes(),
        2 => format!("žluťoučký {i} 𝄞").into_bytes(),
        3 => format!(".hidden{i}").into_bytes(),
        4 => format!("back\\slash:{i}*?\"<>|").into_bytes(),
        5 => format!("\n\t\u{1}{i}").into_bytes(),
        6 => {
            let mut v = format!("{i}").into_bytes();
            v.resize(255, b'n');
            v
        }
        7 => format!("...{i}").into_bytes(),
        _ => format!("-{i}").into_bytes(),
    };
    if chance(40) && v.len() < 250 {
        // Not UTF-8
        v.push(pick(&[0xff, 0x80, 0xc3]));
    }
    OsString::from_vec(v)
}

fn draw_target() -> Vec<u8> {
    match weighted(&[5, 3, 3, 2, 2, 2, 2]) {
        0 => b"f0".to_vec(),
        1 => b".".to_vec(),
        2 => b"..".to_vec(),
        3 => b"../nowhere/at all".to_vec(),
        4 => b"/nonexistent/zsim/target".to_vec(),
        5 => vec![b't'; 1 + draw(4000) as usize],
        _ => vec![0xff, 0xfe, b'x', 0x80],
    }
}

fn put_node(full: &Path, kind: &Kind) -> bool {
    match kind {
        Kind::File(c, n) => fs::write(full, c.bytes(*n)).is_ok(),
        Kind::Dir => fs::create_dir(full).is_ok(),
        Kind::Link(t) => std::os::unix::fs::symlink(OsString::from_vec(t.clone()), full).is_ok(),
    }
}

fn dress(full: &Path, kind: &Kind) {
    if !matches!(kind, Kind::Link(_)) && chance(600) {
        let mode = pick(&[0o644, 0o755, 0o600, 0o444, 0o777, 0o000, 0o4755, 0o1777, draw(0o10000) as u32]);
        let _ = fs::set_permissions(full, fs::Permissions::from_mode(mode));
    } else if !matches!(kind, Kind::Link(_)) {
        let _ = fs::set_permissions(full, fs::Permissions::from_mode(0o755));
    }
    // Always explicit: nothing may depend on the real clock
    let t = if chance(300) { draw_time() } else { UNIX_EPOCH + Duration::from_secs(1_000_000_000 + draw(100_000_000)) };
    set_times(full, UNIX_EPOCH + Duration::from_secs(1_000_000_000));
    set_times(full, t);
}

fn make_tree(root: &Path, max: u64) -> Tree {
    fs::create_dir_all(root).expect("scratch tree");
    // Beyond limits that somebody could have chosen for lists of work
    let big = max >= 100 && chance(15);
    let n = match weighted(&[60, 20, 4, 4]) {
        _ if big => 100 + draw(300),
        0 => draw(8),
        1 => draw(25),
        2 => 33 + draw(60),
        _ => 0,
    };
    let n = if big { n } else { n.min(max) } as usize;
    // Many directories next to each other
    let wide = if big || chance(30) { n * draw(100) as usize / 100 } else { 0 };
    if big {
        probe("large_tree");
    }
    let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
    let mut nodes: Vec<Node> = Vec::new();
    let mut left = 400_000u64;
    let deep = chance(150);
    for i in 0..n {
        let parent = if i < wide {
            PathBuf::new()
        } else if deep { dirs[dirs.len() - 1].clone() } else { dirs[draw(dirs.len() as u64) as usize].clone() };
        let rel = parent.join(if big && deep { OsString::from(format!("{i}")) } else { draw_file_name(i) });
        let kind = match weighted(&[60, 25, 15]) {
            _ if i < wide => Kind::Dir,
            0 if big => {
                let size = draw(50);
                Kind::File(draw_content(), size)
            }
            0 => {
                let size = draw_size(60_000.min(left));
                left -= size;
                Kind::File(draw_content(), size)
            }
            1 => Kind::Dir,
            _ => Kind::Link(draw_target()),
        };
        // Further names of the same file
        let same = nodes.iter().rev().find(|n| matches!(n.kind, Kind::File(..))).filter(|_| chance(120)).cloned();
        if let Some(same) = same {
            if rel.as_os_str().len() <= 2000 && fs::hard_link(root.join(&same.rel), root.join(&rel)).is_ok() {
                nodes.push(Node { rel, kind: same.kind });
            }
            continue;
        }
        if rel.as_os_str().len() > 2000 || !put_node(&root.join(&rel), &kind) {
            continue;
        }
        if matches!(kind, Kind::Dir) {
            dirs.push(rel.clone());
        }
        nodes.push(Node { rel, kind });
    }
    for n in nodes.iter().rev() {
        dress(&root.join(&n.rel), &n.kind);
    }
    dress(root, &Kind::Dir);
    Tree { root: root.to_path_buf(), nodes }
}

/// Expected entry of a file system object; metadata are what the file system says now.
fn expected(full: &Path, name: String, kind: &Kind, conv: &Conv) -> Option<ESpec> {
    let m = fs::symlink_metadata(full).ok()?;
    let (content, size, ftype) = match kind {
        Kind::File(c, n) => (c.clone(), *n, FType::File),
        Kind::Dir => (Content::Byte(0), 0, FType::Dir),
        Kind::Link(t) => (Content::Raw(t.as_slice().into()), t.len() as u64, FType::Symlink),
    };
    let truth = content.crc(size);
    Some(ESpec {
        name,
        content,
        size,
        truth,
        supplied: None,
        bad: None,
        clamp: false,
        dt: m.modified().ok().and_then(|t| conv.convert(t)),
        ftype,
        perm: Perm::Unix(m.permissions().mode()),
    })
}

/// Everything that a complete scan of the tree adds. None if two names become the same.
fn expected_tree(t: &Tree, root_name: Option<&str>, conv: &Conv) -> (BTreeMap<String, ESpec>, bool) {
    let prefix = root_name.map_or(String::new(), |r| format!("{}/", r.trim_end_matches('/')));
    let mut m = BTreeMap::new();
    let mut clash = false;
    for n in &t.nodes {
        let slash = if matches!(n.kind, Kind::Dir) { "/" } else { "" };
        let name = format!("{prefix}{}{slash}", n.rel.to_string_lossy());
        if let Some(e) = expected(&t.root.join(&n.rel), name.clone(), &n.kind, conv) {
            clash |= m.insert(name, e).is_some();
        }
    }
    if root_name.is_some() {
        if let Some(e) = expected(&t.root, prefix.clone(), &Kind::Dir, conv) {
            clash |= m.insert(prefix, e).is_some();
        }
    }
    (m, clash)
}

/// Runs a future to its end, or drops it at some point. Also returns the number of its failed operations.
pub fn drive<T>(fut: impl Future<Output = T>, cancel: u64, mut between: impl FnMut()) -> (Option<T>, u64) {
    let id = fresh_id();
    let failures = || w(|w| w.fs_errs.remove(&id).unwrap_or(0));
    let mut fut = Box::pin(fut);
    let mut flag = WakeFlag::new();
    let mut wk = waker(&flag);
    let mut first = true;
    let mut guard = 0;
    let (spurious, swap) = w(|w| (w.cfg.spurious, w.cfg.waker_swap));
    loop {
        if aborted() {
            return (None, failures());
        }
        guard += 1;
        if guard > 20_000 {
            viol(K::Unbounded, || "a scan never ends".into());
            return (None, failures());
        }
        let mut go = first || flag.is();
        if !go && chance(spurious) {
            fault(F::Spurious);
            go = true;
        }
        first = false;
        if go {
            if chance(swap) {
                fault(F::WakerSwap);
                flag = WakeFlag::new();
                wk = waker(&flag);
            }
            flag.clear();
            w(|w| {
                w.cur = id;
                w.polls += 1;
            });
            if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&wk)) {
                return (Some(r), failures());
            }
            if chance(cancel) {
                fault(F::FsCancel);
                ev("scan.cancel", 0, 0);
                drop(fut);
                return (None, failures());
            }
        }
        if !flag.is() && !step_event() {
            viol(K::Stall, || "a file system operation of zippity is pending and nothing will ever wake it".into());
            return (None, failures());
        }
        between();
    }
}

fn open_files() -> usize {
    fs::read_dir("/proc/self/fd").map_or(0, Iterator::count)
}

/// The builder with everything it should contain.
struct Work {
    b: Builder<FilesystemEntry>,
    conv: Conv,
    have: HashMap<String, ESpec>,
}

impl Work {
    /// What is in the builder now must be exactly known, or come from `new`. Returns specs in order.
    fn settle(&mut self, new: &BTreeMap<String, ESpec>, whole: bool) {
        let mut names: BTreeSet<&str> = BTreeSet::new();
        let keys: Vec<String> = self.b.get_entries().keys().cloned().collect();
        for k in &keys {
            if !names.insert(k) {
                viol(K::Builder, || format!("entry {k:?} is in the builder twice"));
            }
            if self.have.contains_key(k) {
                continue;
            }
            match new.get(k) {
                Some(s) => {
                    self.have.insert(k.clone(), s.clone());
                }
                None => viol(K::Tree, || format!("entry {:?} should not exist", shorten(k))),
            }
        }
        for k in self.have.keys() {
            if !names.contains(k.as_str()) {
                viol(K::Builder, || format!("entry {:?} was lost", shorten(k)));
            }
        }
        if whole {
            for k in new.keys() {
                if !names.contains(k.as_str()) {
                    viol(K::Tree, || format!("{:?} was silently left out", shorten(k)));
                }
            }
        }
    }

    fn specs(&self) -> Option<Vec<ESpec>> {
        let mut v = Vec::new();
        for k in self.b.get_entries().keys() {
            v.push(self.have.get(k)?.clone());
        }
        Some(v)
    }

    fn scan(&mut self, t: &Tree, dir: PathBuf, root_name: Option<&str>, cancel: u64) {
        let (new, clash) = expected_tree(t, root_name, &self.conv);
        let dup = clash || new.keys().any(|k| self.have.contains_key(k));
        ev("scan", new.len() as u64, u64::from(dup));
        note(|| format!("scan of {} with root name {root_name:?}", dir.file_name().map_or(String::new(), |n| n.to_string_lossy().to_string())));
        let (r, failures) = drive(self.b.add_directory_recursive(dir, root_name), cancel, || {});
        match &r {
            None => {
                self.settle(&new, false);
                probe("scan_cancelled");
            }
            Some(Ok(())) => {
                if failures > 0 {
                    viol(K::FsFault, || format!("the scan succeeded although {failures} file operations failed"));
                }
                if dup {
                    viol(K::Builder, || "the scan succeeded although some names exist already".into());
                }
                self.settle(&new, true);
                probe("scan_complete");
            }
            Some(Err(e)) => {
                if failures == 0 && !dup {
                    viol(K::UnexpErr, || format!("the scan failed without a cause: {e}"));
                }
                self.settle(&new, false);
                probe("scan_failed");
            }
        }
        ev("scanned", self.b.get_entries().len() as u64, failures);
    }

    fn single(&mut self, full: PathBuf, kind: &Kind, i: usize) {
        let Ok(m) = fs::symlink_metadata(&full) else { return };
        let base = match draw(4) {
            0 => format!("single{i}"),
            1 => format!("a/b/single{i}"),
            2 => format!("š{i}"),
            _ => "single".into(),
        };
        let given = format!("{base}{}", "/".repeat(draw(4) as usize));
        let name = if matches!(kind, Kind::Dir) { format!("{base}/") } else { base };
        let Some(e) = expected(&full, name.clone(), kind, &self.conv) else { return };
        let dup = self.have.contains_key(&name);
        ev("single", i as u64, u64::from(dup));
        // Direct use of FilesystemEntry leaves metadata to the caller
        let direct = chance(250);
        let mut new = BTreeMap::new();
        let (ok, failures);
        let mut cause = String::new();
        if direct {
            let (r, f) = drive(FilesystemEntry::with_metadata(full, &m), 0, || {});
            let mut e = e;
            e.dt = None;
            e.ftype = FType::File;
            e.perm = Perm::Default;
            new.insert(name.clone(), e);
            failures = f;
            ok = match r {
                Some(Ok(d)) => self.b.add_entry(name, d).is_ok(),
                Some(Err(e)) => {
                    cause = e.to_string();
                    false
                }
                None => return,
            };
        } else {
            new.insert(name.clone(), e);
            let (r, f) = drive(self.b.add_filesystem_entry(given, full, &m), 0, || {});
            failures = f;
            ok = match r {
                Some(Ok(_)) => true,
                Some(Err(e)) => {
                    cause = e.to_string();
                    false
                }
                None => return,
            };
        }
        if ok && failures > 0 {
            viol(K::FsFault, || "an addition succeeded although a file operation failed".into());
        }
        if ok && dup {
            viol(K::Builder, || "a second entry of the same name was accepted".into());
        }
        if !ok && failures == 0 && !dup {
            viol(K::UnexpErr, || format!("an addition failed without a cause: {cause}"));
        }
        self.settle(&new, ok);
    }

    /// Paths which are not directories are refused.
    fn refused_scan(&mut self, path: PathBuf, what: &str) {
        let before = self.b.get_entries().len();
        ev("scan.refused", 0, 0);
        let (r, _) = drive(self.b.add_directory_recursive(path, if chance(500) { Some("x") } else { None }), 0, || {});
        if let Some(Ok(())) = r {
            viol(K::Tree, || format!("scan of {what} succeeded"));
        }
        if self.b.get_entries().len() != before {
            viol(K::Builder, || format!("a refused scan of {what} added entries"));
        }
    }
}

fn draw_root_name(i: usize) -> Option<String> {
    match draw(6) {
        0 | 1 => None,
        2 => Some(format!("root{i}")),
        3 => Some(format!("root{i}{}", "/".repeat(1 + draw(3) as usize))),
        4 => Some(format!("deep/er/root{i}/")),
        _ => Some(format!("kořen {i}")),
    }
}

pub struct Bench {
    pub dir: PathBuf,
    owner: Rc<Cell<(usize, u64)>>,
    _guard: HookGuard,
    fds: usize,
}

pub fn bench() -> Bench {
    w(|w| {
        w.chaos = false;
        w.src_limit = 2_000_000;
    });
    let dir = scratch();
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch directory");
    let fds = open_files();
    let owner = Rc::new(Cell::new((usize::MAX, 0)));
    install(Some(Rc::new(Hook { ops: Rc::new(Cell::new(0)), owner: owner.clone() })));
    Bench { dir, owner, _guard: HookGuard, fds }
}

impl Bench {
    pub fn end(self) {
        if !aborted() {
            // Abandoned operations still end, and whatever they opened has to be closed
            while step_event() {}
            let now = open_files();
            if now > self.fds {
                let n = now - self.fds;
                viol(K::Leak, || format!("{n} file descriptors stay open after everything was dropped"));
            }
        }
        let _ = self.owner;
        let _ = fs::remove_dir_all(&self.dir);
    }
}

pub fn fs_swarm(p: &Prof) {
    swarm(p);
    // One of the many operations of a scan fails
    let rate = if p.errors { pick(&[0, 5, 20, 80, 300]) } else { 0 };
    w(|w| {
        w.cfg.fs_err = rate;
        w.cfg.short_max = w.cfg.short_max.max(50);
        w.chaos = true;
        w.errors_on = true;
    });
}

/// Scans of unchanging trees, then reads of the archive.
pub fn tree(p: &Prof, cancel: bool) {
    scan_and_use(p, cancel, false);
}

/// The archive of files is served over HTTP.
pub fn served(p: &Prof) {
    scan_and_use(p, false, true);
}

fn scan_and_use(p: &Prof, cancel: bool, serve: bool) {
    let bench = bench();
    let n = 1 + draw(2) as usize;
    let trees: Vec<Tree> = (0..n).map(|i| make_tree(&bench.dir.join(format!("t{i}")), if n == 1 { 100 } else { 20 })).collect();
    fs_swarm(p);
    note(|| format!("disturbances: {:?}", w(|w| w.cfg.clone())));
    note(|| {
        let all: Vec<String> = trees.iter().flat_map(|t| t.nodes.iter().map(|n| format!("{:?}", (shorten(&n.rel.to_string_lossy()), matches!(n.kind, Kind::Dir))))).collect();
        all.join(" ")
    });
    let mut wk = Work { b: Builder::new(), conv: Conv::None, have: HashMap::new() };
    let cancel_rate = if cancel { pick(&[0, 20, 100, 400]) } else { 0 };
    let steps = 1 + draw(4) as usize;
    for i in 0..steps {
        if aborted() {
            break;
        }
        if chance(400) {
            let c = Conv::draw();
            if !matches!(c, Conv::None) {
                c.install(&mut wk.b);
                wk.conv = c;
            }
        }
        let t = &trees[draw(trees.len() as u64) as usize];
        match weighted(&[6, 3, 1]) {
            0 => {
                // The same names again from time to time
                let name = if chance(150) { Some("same".to_string()) } else { draw_root_name(i) };
                let dir = if chance(200) { PathBuf::from(format!("{}/", t.root.display())) } else { t.root.clone() };
                wk.scan(t, dir, name.as_deref(), cancel_rate);
            }
            1 => {
                if t.nodes.is_empty() {
                    let r = t.root.clone();
                    wk.single(r, &Kind::Dir, i);
                } else {
                    let k = draw(t.nodes.len() as u64) as usize;
                    wk.single(t.root.join(&t.nodes[k].rel), &t.nodes[k].kind.clone(), i);
                }
            }
            _ => {
                let found = t.nodes.iter().find(|n| !matches!(n.kind, Kind::Dir));
                match found {
                    Some(n) => wk.refused_scan(t.root.join(&n.rel), "a file or a link"),
                    None => wk.refused_scan(t.root.join("no such directory"), "nothing"),
                }
            }
        }
    }
    if let (false, Some(specs)) = (aborted(), wk.specs()) {
        let chaos = w(|w| std::mem::replace(&mut w.chaos, false));
        let rf = ref_of(wk.b.clone(), &specs);
        w(|w| w.chaos = chaos);
        if let (Some(rf), false) = (rf, aborted()) {
            if wk.b.size() != rf.len() {
                let (x, y) = (wk.b.size(), rf.len());
                viol(K::Size, || format!("builder announces {x}, archive has {y}"));
            }
            let total: u64 = rf.len();
            if total > 20_000 {
                w(|w| w.cfg.short_max = w.cfg.short_max.max(total / 4000));
            }
            let a = Arena { specs, rf: Rc::new(rf), mk: Box::new(|_, _| unreachable!("no rebuilding")), states: vec![], builder: wk.b.clone() };
            let mut p = p.clone();
            p.w_rebuild = 0;
            p.steps = if p.max_clients > 3 { p.steps } else { 40 };
            if serve {
                http::serve(&a, false);
            } else if chance(700) {
                play(&p, &a);
            } else {
                let mut c = a.spawn();
                c.seek(0, 0);
                heal();
                full_pass(&mut c, 8192);
            }
        }
    }
    drop(wk);
    bench.end();
}

// ------------------------------------------------------------------------------------------
// Changes under the hands of a scan or read

fn mutate(t: &Tree, extra: &mut u32) {
    *extra += 1;
    let what = draw(11);
    let node = if t.nodes.is_empty() { None } else { Some(&t.nodes[draw(t.nodes.len() as u64) as usize]) };
    let path = node.map_or_else(|| t.root.join("created"), |n| t.root.join(&n.rel));
    let Ok(m) = fs::symlink_metadata(&path) else {
        // Deleted before: comes back
        let size = draw_size(20_000);
        let _ = fs::write(&path, draw_content().bytes(size));
        ev("mut.create", 0, size);
        return;
    };
    fault(F::FsMutation);
    ev("mut", what, m.is_file().into());
    let temp = t.root.parent().unwrap_or(&t.root).join(format!("new{extra}"));
    let gone = |p: &Path| {
        // Never through a symlink
        match fs::symlink_metadata(p) {
            Ok(m) if m.is_dir() => {
                let _ = fs::remove_dir_all(p);
            }
            _ => {
                let _ = fs::remove_file(p);
            }
        }
    };
    match what {
        0 | 1 if m.is_file() => {
            let n = match draw(4) {
                0 => 0,
                1 => draw(m.len() + 1),
                2 => m.len().saturating_sub(1),
                _ => m.len() + 1 + draw(9000),
            };
            if let Ok(f) = fs::OpenOptions::new().write(true).open(&path) {
                let _ = f.set_len(n);
            }
        }
        2 | 3 if m.is_file() && m.len() > 0 => {
            // Other content, the same length
            let data = draw_content().bytes(m.len());
            if chance(500) {
                use std::os::unix::fs::FileExt as _;
                let at = draw(m.len());
                if let Ok(f) = fs::OpenOptions::new().write(true).open(&path) {
                    let _ = f.write_all_at(&data[at as usize..], at);
                }
            } else if fs::write(&temp, &data).is_ok() {
                let _ = fs::rename(&temp, &path);
            }
        }
        4 if m.is_file() => {
            use std::io::Write as _;
            if let Ok(mut f) = fs::OpenOptions::new().append(true).open(&path) {
                let _ = f.write_all(&draw_content().bytes(1 + draw(3000)));
            }
        }
        5 => gone(&path),
        6 => {
            gone(&path);
            let _ = fs::create_dir(&path);
        }
        7 => {
            gone(&path);
            let target = pick(&["f0", ".", "nowhere", "f1"]);
            let _ = std::os::unix::fs::symlink(target, &path);
        }
        8 => {
            gone(&path);
            let n = draw_size(20_000);
            let _ = fs::write(&path, draw_content().bytes(n));
        }
        9 if m.is_dir() => {
            let n = draw_size(5000);
            let _ = fs::write(path.join(format!("late{extra}")), draw_content().bytes(n));
        }
        10 => {
            let _ = fs::rename(&path, &temp);
        }
        _ => {}
    }
}

/// One sequential pass; `Ok` is what was produced.
fn pass(r: Pin<&mut Reader<FilesystemEntry>>, id: usize, between: &mut dyn FnMut()) -> Result<Vec<u8>, ()> {
    let mut r = r;
    let cap = pick(&[8192, 700, 65_536, 20_000]);
    let mut out = Vec::new();
    let mut buf = vec![0u8; cap];
    let flag = WakeFlag::new();
    let wk = waker(&flag);
    let mut cx = Context::from_waker(&wk);
    let limit = r.size() + 100_000;
    loop {
        if aborted() {
            return Err(());
        }
        flag.clear();
        w(|w| {
            w.cur = id;
            w.polls += 1;
            w.src_ops_poll = 0;
        });
        let mut rb = ReadBuf::new(&mut buf);
        match r.as_mut().poll_read(&mut cx, &mut rb) {
            Poll::Pending => {
                between();
                while !flag.is() {
                    if !step_event() {
                        viol(K::Stall, || "read is pending and nothing will ever wake it".into());
                        return Err(());
                    }
                }
            }
            Poll::Ready(Ok(())) => {
                let n = rb.filled().len();
                ev("pass.read", n as u64, 0);
                if n == 0 {
                    return Ok(out);
                }
                w(|w| w.bytes_out += n as u64);
                out.extend_from_slice(rb.filled());
                if out.len() as u64 > limit {
                    viol(K::FsSilent, || format!("more than {limit} bytes were produced"));
                    return Err(());
                }
                between();
            }
            Poll::Ready(Err(e)) => {
                note(|| format!("read failed: {e}"));
                ev("pass.err", 0, 0);
                return Err(());
            }
        }
    }
}

/// A complete read of anything has to be a valid archive of the announced size.
fn judge(bytes: &[u8], announced: u64, entries: &[String]) {
    let bad = |m: String| viol(K::FsSilent, || format!("complete read without an error: {m}"));
    if bytes.len() as u64 != announced {
        bad(format!("{} bytes produced, {announced} announced", bytes.len()));
        return;
    }
    let lay = match zip::parse(&mut &*bytes) {
        Ok(l) => l,
        Err(e) => {
            bad(e);
            return;
        }
    };
    if lay.ents.len() != entries.len() {
        bad(format!("{} entries in the archive, {} in the builder", lay.ents.len(), entries.len()));
        return;
    }
    for (e, name) in lay.ents.iter().zip(entries) {
        if e.name != name.as_bytes() {
            bad(format!("name of {:?} is wrong", shorten(name)));
        }
        let crc = crc32fast::hash(&bytes[e.data_off as usize..e.dd_off as usize]);
        if crc != e.crc {
            bad(format!("CRC of entry {:?} is {:08x}, of its data {crc:08x}", shorten(name), e.crc));
        }
    }
}

/// Files change while they are scanned and read.
pub fn changing(p: &Prof) {
    let bench = bench();
    let t = make_tree(&bench.dir.join("t0"), 30);
    let other = make_tree(&bench.dir.join("t1"), 6);
    fs_swarm(p);
    let mut extra = 0;
    let scan_rate = pick(&[0, 30, 200]);
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let mut before = Vec::new();
    if chance(400) {
        // Entries which must survive whatever happens
        let (r, _) = drive(b.add_directory_recursive(other.root.clone(), Some("kept")), 0, || {});
        if let Some(Ok(())) = r {
            before = b.get_entries().keys().cloned().collect();
        }
    }
    let cancel = pick(&[0, 0, 20]);
    let name = draw_root_name(0);
    let (r, failures) = drive(b.add_directory_recursive(t.root.clone(), name.as_deref()), cancel, || {
        if chance(scan_rate) {
            mutate(&t, &mut extra);
        }
    });
    if let Some(Ok(())) = r {
        if failures > 0 {
            viol(K::FsFault, || "the scan succeeded although file operations failed".into());
        }
    }
    ev("changing.scanned", u64::from(matches!(r, Some(Ok(())))), b.get_entries().len() as u64);
    let keys: Vec<String> = b.get_entries().keys().cloned().collect();
    if !keys.starts_with(&before) {
        viol(K::Builder, || "a scan changed entries which were present already".into());
    }
    let announced = b.size();
    let n = 1 + draw(3);
    let mut readers: Vec<Pin<Box<Reader<FilesystemEntry>>>> = Vec::new();
    for _ in 0..n {
        if aborted() {
            break;
        }
        let mut r = match readers.last() {
            Some(r) if chance(400) => Box::pin((**r).clone()),
            _ => Box::pin(b.clone().build()),
        };
        if r.size() != announced {
            let z = r.size();
            viol(K::Size, || format!("reader announces {z}, builder {announced}"));
        }
        let mut rate = pick(&[0, 5, 40, 200]);
        let passes = 1 + draw(3);
        let id = fresh_id();
        for _ in 0..passes {
            if aborted() {
                break;
            }
            if chance(400) {
                // Something is known already, maybe from other data
                let at = draw(announced + 1);
                r.as_mut().seek_from_start_pinned(at);
                let mut left = 1 + draw(40);
                let mut between = || {
                    if chance(rate) {
                        mutate(&t, &mut extra);
                    }
                };
                let flag = WakeFlag::new();
                let wk = waker(&flag);
                let mut cx = Context::from_waker(&wk);
                let mut buf = vec![0u8; 2000];
                while left > 0 {
                    left -= 1;
                    flag.clear();
                    w(|w| {
                        w.cur = id;
                        w.polls += 1;
                        w.src_ops_poll = 0;
                    });
                    let mut rb = ReadBuf::new(&mut buf);
                    match r.as_mut().poll_read(&mut cx, &mut rb) {
                        Poll::Pending => {
                            between();
                            step_event();
                        }
                        Poll::Ready(Ok(())) if rb.filled().is_empty() => break,
                        Poll::Ready(Ok(())) => {}
                        Poll::Ready(Err(_)) => break,
                    }
                }
            }
            r.as_mut().seek_from_start_pinned(0);
            let mut between = || {
                if chance(rate) {
                    mutate(&t, &mut extra);
                }
            };
            let res = pass(r.as_mut(), id, &mut between);
            match res {
                Ok(bytes) => {
                    probe("changed_tree_read_completely");
                    judge(&bytes, announced, &keys);
                }
                Err(()) => probe("changed_tree_read_failed"),
            }
            if chance(300) {
                rate = 0;
            }
        }
        readers.push(r);
    }
    drop(readers);
    drop(b);
    bench.end();
}
