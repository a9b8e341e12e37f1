BUGS = []
H = """
mod common;
use common::*;
use std::io::ErrorKind;
use std::task::Poll;
use zippity::{Builder, Reader};
#[allow(unused_imports)]
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncSeek};
"""

# --- 1
BUGS.append(("c05-coalesced-header", "C05",
 "A source that fails to open (or fails its first read) in the very read call which delivered the local header in front of it, then a retry",
 "Header bytes and entry data are delivered by the same poll. When the source then fails, the header bytes are already in the caller's buffer but not in the position, and are never delivered again",
 {"src/reader.rs": [("""                    if output.remaining() != initial_remaining {
                        // We have already written something into the output -> interrupt this call, because
                        // we might need to return Pending when reading the file data
                        assert!(self.staging_buffer.is_empty());
                        break;
                    }
                    zippity_ready!(self.read_entry_data(""",
"""                    // Part of the output might be written already, `zippity_ready` makes sure that we don't
                    // return Pending in that case.
                    assert!(self.staging_buffer.is_empty());
                    zippity_ready!(self.read_entry_data(""")]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    src.script(&[Act::Fail(ErrorKind::Other)]);
    let mut r = Box::pin(b.build());
    let mut out = Vec::new();
    let mut errors = 0;
    loop {
        match poll_read(&mut r, 300) {
            Poll::Pending => {}
            Poll::Ready(Err(_)) => errors += 1,
            Poll::Ready(Ok(v)) if v.is_empty() => break,
            Poll::Ready(Ok(v)) => out.extend(v),
        }
        assert_eq!(r.tell(), out.len() as u64, "tell differs from the number of bytes delivered");
    }
    assert_eq!(errors, 1);
    assert!(out == good, "bytes were lost");
    let _: &Reader<Src> = &r;
}
"""))

# --- 2
BUGS.append(("c04-seek-to-same-position", "C04",
 "Reading to a position strictly inside an entry's data and then seeking to exactly that position (SeekFrom::Current(0), stream_position())",
 "A seek which doesn't move returns early, but the callers still drop the open source, so that the entry's data continues from its beginning instead of from the position",
 {"src/reader.rs": [("""        offset: u64,
    ) {
        let (chunk, chunk_position) = if offset >= sizes.eocd_offset {""",
"""        offset: u64,
    ) {
        if offset == self.position {
            // Nothing to do, this is common with `AsyncSeekExt::stream_position()`
            return;
        }

        let (chunk, chunk_position) = if offset >= sizes.eocd_offset {"""),
 ("    /// Seeks to a given offset inside the file.\n    /// After", "    /// Seeks to a given offset inside the file, does nothing if it is the current one.\n    /// After")]},
H + """
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(5000, 1))).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut r = Box::pin(b.build());
    let mut out = read_n(&mut r, 1234).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    assert_eq!(rt.block_on(r.stream_position()).unwrap(), 1234);
    while out.len() < good.len() {
        match poll_read(&mut r, 300) {
            Poll::Ready(Ok(v)) => out.extend(v),
            Poll::Pending => {}
            Poll::Ready(Err(e)) => panic!("{e}"),
        }
    }
    assert!(out == good);
    let _ = ErrorKind::Other;
    let _: &Reader<Src> = &r;
}
"""))

# --- 3
BUGS.append(("c12-clone-clamps-position", "C12",
 "Cloning (or taking) a Reader which was sought past the end of the archive, then a relative seek of the copy",
 "Copies of a Reader whose position is past the end report the archive size as their position, relative seeks in them end up elsewhere than in the original",
 {"src/reader.rs": [("""        cloned.seek_from_start_mut(self.tell());
        cloned""",
"""        cloned.seek_from_start_mut(self.tell().min(self.sizes.total_size));
        cloned""")]},
H + """
use std::io::SeekFrom;
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(500, 1))).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut r = b.build();
    let size = r.size();
    r.seek_from_start_mut(size + 100);
    let mut c = Box::pin(r.clone());
    assert_eq!(c.tell(), r.tell());
    c.as_mut().start_seek(SeekFrom::Current(-150)).unwrap();
    assert_eq!(c.tell(), size - 50);
    assert!(read_all(&mut c, 10).unwrap() == good[good.len() - 50..]);
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: &Reader<Src> = &r;
}
"""))

# --- 4
BUGS.append(("c14-range-span", "C14",
 "A request with several ranges which are not adjacent",
 "A multi-range request is answered with the span from the first range's start to the last range's end, although nobody asked for what lies between them (206 with bytes outside of the first requested range)",
 {"src/actix_web.rs": [("""            let range = validated
                .first()
                .expect("Range header must be nonempty, this is verified by the parser");

            response.insert_header((
                CONTENT_RANGE,
                format!("bytes {}-{}/{}", *range.start(), *range.end(), size),
            ));
            (*range.start(), *range.end() - *range.start() + 1)""",
"""            let (first, last) = validated.first().zip(validated.last())
                .expect("Range header must be nonempty, this is verified by the parser");
            let (start, end) = (*first.start(), *last.end());

            response.insert_header((CONTENT_RANGE, format!("bytes {start}-{end}/{size}")));
            (start, end - start + 1)""")]},
"""
use actix_web::Responder;
use actix_web::http::header::{CONTENT_LENGTH, CONTENT_RANGE, RANGE};
fn main() {
    let mut b = zippity::Builder::<Vec<u8>>::new();
    b.add_entry("a".into(), vec![7; 5000]).unwrap();
    let r = b.build();
    let size = r.size();
    let req = actix_web::test::TestRequest::get().insert_header((RANGE, "bytes=10-19,100-109")).to_http_request();
    let resp = r.into_responder().respond_to(&req);
    assert_eq!(resp.status().as_u16(), 206);
    assert_eq!(resp.headers().get(CONTENT_RANGE).unwrap().to_str().unwrap(), format!("bytes 10-19/{size}"));
    assert_eq!(resp.headers().get(CONTENT_LENGTH).unwrap().to_str().unwrap(), "10");
}
"""))

# --- 5
BUGS.append(("c16-shared-file-handle", "C16",
 "Two readers of the same Builder (or clones of each other) reading the same file entry at the same time, interleaved inside the file's data",
 "FilesystemEntry caches the opened file and hands out duplicates of the handle; duplicated handles share one file offset, so concurrent readers steal each other's bytes",
 {"src/filesystem_entry.rs": [
 ("""    path: PathBuf,
    entry_type: EntryType,
}

#[derive(Debug, Clone)]
enum EntryType {""",
"""    path: PathBuf,
    entry_type: EntryType,
    /// The file opened by the first reader, repeated requests don't need to walk the path again
    opened: Arc<tokio::sync::OnceCell<File>>,
}

#[derive(Debug, Clone)]
enum EntryType {"""),
 ("Ok(FilesystemEntry { path, entry_type })",
"""Ok(FilesystemEntry {
            path,
            entry_type,
            opened: Arc::default(),
        })"""),
 ("                file_future: Box::pin(File::open(self.path.clone())),",
"""                file_future: {
                    let path = self.path.clone();
                    let opened = Arc::clone(&self.opened);
                    Box::pin(async move {
                        let file = opened.get_or_try_init(|| File::open(path)).await?;
                        let mut file = file.try_clone().await?;
                        tokio::io::AsyncSeekExt::rewind(&mut file).await?;
                        Ok(file)
                    })
                },"""),
 ]},
H + """
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    std::fs::write(dir.join("f"), pattern(30_000, 3)).unwrap();
    rt.block_on(async {
        let mut b = Builder::<zippity::FilesystemEntry>::new();
        b.add_directory_recursive(dir.clone(), None).await.unwrap();
        let mut good = Vec::new();
        Box::pin(b.clone().build()).read_to_end(&mut good).await.unwrap();
        let mut x = Box::pin(b.clone().build());
        let mut y = Box::pin(x.clone());
        let mut a = vec![0; 15_000];
        x.read_exact(&mut a).await.unwrap();
        let mut all = Vec::new();
        y.read_to_end(&mut all).await.unwrap();
        assert!(all == good, "second reader differs");
        x.read_to_end(&mut a).await.unwrap();
        assert!(a == good, "first reader was disturbed by the second one");
    });
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: Option<Reader<Src>> = None;
}
"""))

# --- 6
BUGS.append(("c17-hard-links", "C17",
 "A tree that contains two names of one file (hard links)",
 "A guard against visiting the same directory twice (bind mounts) is applied to files too: all but one name of a hard linked file are silently missing from the archive",
 {"src/filesystem_entry.rs": [
 ("""        let mut stack = vec![directory.clone()];
        while let""",
"""        let mut stack = vec![directory.clone()];
        // Bind mounts can make the tree endless
        let mut visited = std::collections::HashSet::new();
        while let"""),
 ("""                if metadata.is_dir() {
                    stack.push(path.clone());
                }
""", """                #[cfg(unix)]
                {
                    use std::os::unix::fs::MetadataExt as _;
                    if !visited.insert((metadata.dev(), metadata.ino())) {
                        continue;
                    }
                }
                if metadata.is_dir() {
                    stack.push(path.clone());
                }
"""),
 ("            let mut dir = read_dir(path).await?;", "            let mut dir = read_dir(&path).await?;"),
 ]},
H + """
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    std::fs::write(dir.join("f"), b"x").unwrap();
    std::fs::hard_link(dir.join("f"), dir.join("g")).unwrap();
    rt.block_on(async {
        let mut b = Builder::<zippity::FilesystemEntry>::new();
        b.add_directory_recursive(dir.clone(), None).await.unwrap();
        assert_eq!(b.get_entries().len(), 2);
    });
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: Option<Reader<Src>> = None;
}
"""))

# --- 7
BUGS.append(("c19-rollback", "C19",
 "A directory addition that is refused half-way (a name which is already in the builder) after it added something",
 "Entries of the failed directory are removed again, but the accounted size is not reduced: Builder::size() no longer equals the built archive",
 {"src/filesystem_entry.rs": [
 ("                let added_entry = self.add_entry(entry_name, zip_entry)?;\n                added_entry.metadata(&metadata);\n            }",
"""                let added_entry = match self.add_entry(entry_name, zip_entry) {
                    Ok(added_entry) => added_entry,
                    Err(e) => {
                        // Don't leave a half added directory behind
                        self.forget_entries_from(entries_before);
                        return Err(e.into());
                    }
                };
                added_entry.metadata(&metadata);
            }"""),
 ("        let directory_metadata = symlink_metadata(&directory).await?;\n", "        let entries_before = self.get_entries().len();\n        let directory_metadata = symlink_metadata(&directory).await?;\n"),
 ],
 "src/builder.rs": [
 ("""    /// Returns a reference to all entries currently in the builder.
    pub fn get_entries(&self)""",
"""    /// Removes entries that were added when the builder already contained `len` entries.
    #[cfg(feature = "tokio-file")]
    pub(crate) fn forget_entries_from(&mut self, len: usize) {
        self.entries.truncate(len);
    }

    /// Returns a reference to all entries currently in the builder.
    pub fn get_entries(&self)""")]},
H + """
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let top = std::env::current_dir().unwrap();
    let dir = top.join("tree");
    std::fs::create_dir(&dir).unwrap();
    for n in ["a", "b", "c", "d"] {
        std::fs::write(dir.join(n), b"xxx").unwrap();
    }
    rt.block_on(async {
        for n in ["a", "b", "c", "d"] {
            let mut b = Builder::<zippity::FilesystemEntry>::new();
            let path = dir.join(n);
            let meta = std::fs::symlink_metadata(&path).unwrap();
            b.add_filesystem_entry(n.into(), path, &meta).await.unwrap();
            b.add_directory_recursive(dir.clone(), None).await.unwrap_err();
            let size = b.size();
            assert_eq!(size, b.build().size(), "size() differs from the built archive");
        }
    });
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: Option<Reader<Src>> = None;
}
"""))

# --- 8
BUGS.append(("c18-listing-error", "C18",
 "An I/O error while a directory is being listed (after it was opened)",
 "The rest of the directory is silently left out of the archive and the scan reports success",
 {"src/filesystem_entry.rs": [
 ("while let Some(dir_entry) = dir.next_entry().await? {", "while let Ok(Some(dir_entry)) = dir.next_entry().await {"),
 ]},
None))

BUGS[-1] = BUGS[-1][:5] + (r"""
//! Interposes readdir64 so that listing a directory fails at its fourth call.
use std::ffi::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

unsafe extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}

static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);

#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut c_void {
    if LEFT.fetch_sub(1, SeqCst) <= 0 {
        unsafe { *__errno_location() = 5 };
        return std::ptr::null_mut();
    }
    let real: unsafe extern "C" fn(*mut c_void) -> *mut c_void =
        unsafe { std::mem::transmute(dlsym(-1isize as *mut c_void, c"readdir64".as_ptr())) };
    unsafe { real(dir) }
}

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    for i in 0..100 {
        std::fs::write(dir.join(i.to_string()), b"xxx").unwrap();
    }
    for n in [0, 3, 50, 101] {
        let mut b = zippity::Builder::<zippity::FilesystemEntry>::new();
        LEFT.store(n, SeqCst);
        let result = rt.block_on(b.add_directory_recursive(dir.clone(), None));
        LEFT.store(i64::MAX, SeqCst);
        assert!(result.is_err(), "listing failed after {n} entries and nobody noticed");
    }
    let mut b = zippity::Builder::<zippity::FilesystemEntry>::new();
    rt.block_on(b.add_directory_recursive(dir.clone(), None)).unwrap();
    assert_eq!(b.get_entries().len(), 100);
}
""",)

# --- 9
BUGS.append(("c21-checksum-buffer", "C21",
 "A read that needs the unknown CRC of a large entry without its data (seek past the data, then read)",
 "The buffer for calculating the CRC is as large as the entry and is kept afterwards: memory grows with the size of the entries",
 {"src/reader.rs": [
 ("        let mut read_buffer = get_read_buf(read_buffer);\n\n        loop {",
  "        // The larger the buffer, the fewer round trips to the data source are needed\n        let mut read_buffer = get_read_buf_sized(\n            read_buffer,\n            usize::try_from(self.size).map_or(READ_SIZE, |size| size.max(READ_SIZE)),\n        );\n\n        loop {"),
 ("""fn get_read_buf(vec: &mut Vec<u8>) -> ReadBuf<'_> {
    vec.reserve(READ_SIZE);
    ReadBuf::uninit(&mut vec.spare_capacity_mut()[..READ_SIZE])
}""", """fn get_read_buf(vec: &mut Vec<u8>) -> ReadBuf<'_> {
    get_read_buf_sized(vec, READ_SIZE)
}

fn get_read_buf_sized(vec: &mut Vec<u8>, size: usize) -> ReadBuf<'_> {
    vec.reserve(size);
    ReadBuf::uninit(&mut vec.spare_capacity_mut()[..size])
}"""),
 ]},
r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(LIVE.fetch_add(l.size(), SeqCst) + l.size(), SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Count = Count;

use std::io::SeekFrom;
use tokio::io::{AsyncReadExt, AsyncSeekExt};

fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let data = vec![1u8; 20_000_000];
    let mut b = zippity::Builder::<&[u8]>::new();
    b.add_entry("a".into(), data.as_slice()).unwrap();
    let mut r = Box::pin(b.build());
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    rt.block_on(async {
        r.seek(SeekFrom::End(-30)).await.unwrap();
        let mut v = Vec::new();
        r.read_to_end(&mut v).await.unwrap();
        r.seek(SeekFrom::End(-150)).await.unwrap();
        r.read_to_end(&mut v).await.unwrap();
    });
    let used = PEAK.load(SeqCst) - before;
    assert!(used < 1_000_000, "{used} B used");
}
"""))

# --- 10
BUGS.append(("c08-prefetch", "C08",
 "A source that fails to open immediately, in the very read call which delivered the local header in front of it",
 "Opening of the next entry is started already when its header is delivered, the result is ignored: a failed opening is swallowed and silently repeated",
 {"src/reader.rs": [("""                        assert!(self.staging_buffer.is_empty());
                        break;
                    }
                    zippity_ready!(self.read_entry_data(""",
"""                        assert!(self.staging_buffer.is_empty());
                        // ... but the opening of the data can run while the caller processes the output.
                        let _ = entries[entry_index].get_reader(pinned.as_mut(), ctx);
                        break;
                    }
                    zippity_ready!(self.read_entry_data("""),
 ("                        // We have already written something into the output -> interrupt this call, because\n", "                        // We have already written something into the output -> interrupt this call, since\n")]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let mut r = Box::pin(b.build());
    src.script(&[Act::Fail(ErrorKind::Other)]);
    src.shared.borrow_mut().opens = 0;
    assert!(read_all(&mut r, 300).is_err(), "failure was swallowed");
    let _: &Reader<Src> = &r;
}
"""))

# --- 11
BUGS.append(("c10-crc-corrected-on-retry", "C10",
 "A wrong supplied CRC, and a second full read after the first one failed",
 "The wrong supplied CRC is reported only once: the computed value silently replaces it, a second pass succeeds",
 {"src/reader.rs": [("""            let actual_crc = file_reader.get_crc32();
            if let Some(actual_crc) = actual_crc
                && let Some(expected_crc) = entry.crc32
                && expected_crc != actual_crc
            {""",
"""            let actual_crc = file_reader.get_crc32();
            if let Some(actual_crc) = actual_crc
                && self.chunk_processed_size == entry.size
                && let Some(expected_crc) = entry.crc32.replace(actual_crc)
                && expected_crc != actual_crc
            {""")]},
H + """
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(1000, 1))).unwrap().crc32(0x12345678);
    let mut r = Box::pin(b.build());
    for _ in 0..3 {
        r.as_mut().seek_from_start_pinned(0);
        assert!(read_all(&mut r, 300).is_err(), "wrong CRC not reported");
    }
    assert_eq!(r.crc32s().next(), Some(("a", 0x12345678)));
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: &Reader<Src> = &r;
}
"""))

# --- 12
BUGS.append(("c20-refused-time-drops-previous", "C20",
 "A fallible time setter called with an unrepresentable time on an entry that already had its time set",
 "A refused time still replaces the time that was set before with the default",
 {"src/builder.rs": [("""        self.datetime = Some(structs::DosDatetime::new(
            year, month, day, hour, minute, second,
        )?);
        Some(self)""",
"""        self.datetime = structs::DosDatetime::new(year, month, day, hour, minute, second);
        self.datetime.is_some().then_some(self)""")]},
H + """
fn main() {
    let build = |refused: bool| {
        let mut b = Builder::<Src>::new();
        let e = b.add_entry("a".into(), Src::new(vec![1])).unwrap();
        e.datetime_fields(2000, 1, 2, 3, 4, 6).unwrap();
        if refused {
            assert!(e.datetime_fields(1979, 1, 2, 3, 4, 6).is_none());
        }
        read_all(&mut Box::pin(b.build()), 100).unwrap()
    };
    assert!(build(true) == build(false), "refused time changed the entry");
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: Option<Reader<Src>> = None;
}
"""))

# --- 13
BUGS.append(("c09-short-after-seek", "C09",
 "A supplied CRC, a seek into the middle of the entry's data and a source which turns out to be shorter than announced",
 "After a seek inside of an entry the length of a source with a known CRC is not checked any more; the short entry is not reported as an error",
 {"src/reader.rs": [("            if self.chunk_processed_size != entry.size {\n", "            if self.chunk_processed_size != entry.size && actual_crc.is_some() {\n"),
  ("                assert!(self.chunk_processed_size == current_chunk_size);\n", "                assert!(self.chunk_processed_size <= current_chunk_size);\n")]},
H + """
fn main() {
    let mut src = Src::new(pattern(1000, 1));
    src.announced = 1200;
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src).unwrap().crc32(0x12345678);
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(500);
    assert!(read_all(&mut r, 300).is_err(), "missing data not reported");
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: &Reader<Src> = &r;
}
"""))

# --- 14
BUGS.append(("c12-take-keeps-source", "C12",
 "take_pinned() while an entry's source is open, with the emptied Reader living on",
 "The Reader that was taken from keeps the open data source although it is an empty archive now",
 {"src/reader.rs": [("""        let mut projected = self.project();

        let sizes = replace""", """        let projected = self.project();

        let sizes = replace"""),
 ("""        projected.pinned.set(empty.pinned);
        let pinned = ReaderPinned::Nothing;

        Reader {
            sizes,
            entries,
            read_state,
            pinned,
        }""", """
        Reader {
            sizes,
            entries,
            read_state,
            pinned: empty.pinned,
        }""")]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let mut r = Box::pin(b.build());
    read_n(&mut r, 300).unwrap();
    assert_eq!(src.shared.borrow().live, 1);
    let taken = r.as_mut().take_pinned();
    assert_eq!(src.shared.borrow().live, 0, "source is still open");
    let mut taken = Box::pin(taken);
    read_all(&mut taken, 100).unwrap();
    let _ = (ErrorKind::Other, Poll::Ready(1));
    let _: &Reader<Src> = &r;
}
"""))

# --- 15
BUGS.append(("c13-fused-stream", "C13",
 "A source error (or end of stream) in a BytesStream, then repositioning the inner Reader and continuing with the same stream",
 "The stream is fused: after the first error item or its end it never yields anything again, although its Reader was repositioned or the source works again",
 {"src/bytes.rs": [("""    reader: Reader<D>,
    buffer: BytesMut,
}

// TODO""", """    reader: Reader<D>,
    buffer: BytesMut,
    finished: bool,
}

// TODO"""),
 ("""        let projected = self.project();

        assert!(projected.buffer.is_empty());""", """        let projected = self.project();

        if *projected.finished {
            return Poll::Ready(None);
        }

        assert!(projected.buffer.is_empty());"""),
 ("""        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;

        if n == 0 {
            return Poll::Ready(None);
        }
""", """        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer));
        *projected.finished = !matches!(n, Ok(1..));

        if n? == 0 {
            return Poll::Ready(None);
        }
"""),
 ("""            reader,
            buffer: BytesMut::with_capacity(READ_SIZE),
""", """            reader,
            buffer: BytesMut::with_capacity(READ_SIZE),
            finished: false,
""")]},
H + """
use futures_core::Stream;
use std::task::{Context, Waker};
fn main() {
    let src = Src::new(pattern(10_000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut s = Box::pin(b.build().into_bytes_stream());
    for _ in 0..2 {
        let mut out = Vec::new();
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            match s.as_mut().poll_next(&mut cx) {
                Poll::Pending => {}
                Poll::Ready(None) => break,
                Poll::Ready(Some(b)) => out.extend_from_slice(&b.unwrap()),
            }
        }
        assert!(out == good);
        s.as_mut().reader_pin_mut().seek_from_start_pinned(0);
    }
    let _ = ErrorKind::Other;
    let _: Option<Reader<Src>> = None;
}
"""))

# --- 16
BUGS.append(("c11-interrupted-is-pending", "C11",
 "A source whose read fails with ErrorKind::Interrupted",
 "Interrupted reads are turned into Pending without anybody being asked to wake the task up: the read hangs forever",
 {"src/crc_reader.rs": [("""        ready!(projected.inner_reader.poll_read(data, cx, buf))?;
        projected""", """        match ready!(projected.inner_reader.poll_read(data, cx, buf)) {
            // The read will be repeated
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => return Poll::Pending,
            result => result?,
        }
        projected""")]},
H + """
use std::task::Context;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use tokio::io::{AsyncRead, ReadBuf};
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let mut r = Box::pin(b.build());
    read_n(&mut r, 300).unwrap();
    src.script(&[Act::Fail(ErrorKind::Interrupted)]);
    let flag = Arc::new(Flag(AtomicUsize::new(0)));
    let waker = flag.clone().into();
    let mut buf = [0; 100];
    let result = r.as_mut().poll_read(&mut Context::from_waker(&waker), &mut ReadBuf::new(&mut buf));
    assert!(result.is_ready() || flag.0.load(SeqCst) > 0, "nobody is going to wake the task");
    let _: &Reader<Src> = &r;
}
"""))
