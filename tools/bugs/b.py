BUGS = []
H = """
mod common;
use common::*;
#[allow(unused_imports)]
use std::io::{ErrorKind, SeekFrom};
#[allow(unused_imports)]
use std::pin::Pin;
#[allow(unused_imports)]
use std::task::{Context, Poll, Waker};
#[allow(unused_imports)]
use zippity::{Builder, BytesStream, FilesystemEntry, Reader};
#[allow(unused_imports)]
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncSeek, AsyncRead, ReadBuf};
"""
F = "src/reader.rs"

BUGS.append(("c11-budget-no-wake", "C11",
 "A read that needs the unknown CRC of an entry whose source needs more than 256 reads",
 "Computing a CRC gives up its turn after 256 reads by returning pending, but nobody wakes the task: the read hangs forever",
 {F: [("""        loop {
            read_buffer.clear();
            assert!(read_buffer.filled().is_empty());""",
"""        // Long computations must not starve the other tasks
        let mut budget = 256;

        loop {
            if budget == 0 {
                return Poll::Pending;
            }
            budget -= 1;
            read_buffer.clear();
            assert!(read_buffer.filled().is_empty());""")]},
H + """
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(5_000_000, 1))).unwrap();
    let mut r = b.build();
    let size = r.size();
    r.seek_from_start_mut(size - 150);
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async move {
        let mut v = Vec::new();
        let mut r = Box::pin(r);
        // Two tasks, so that the runtime itself is never the reason of a poll
        let mut tries = 0;
        let flag = std::sync::Arc::new(Flag(Default::default()));
        let waker = std::task::Waker::from(flag.clone());
        loop {
            let mut buf = [0; 64];
            let mut rb = ReadBuf::new(&mut buf);
            let before = flag.0.load(std::sync::atomic::Ordering::SeqCst);
            match r.as_mut().poll_read(&mut Context::from_waker(&waker), &mut rb) {
                Poll::Pending => assert!(flag.0.load(std::sync::atomic::Ordering::SeqCst) > before, "pending and nobody will wake it"),
                Poll::Ready(Err(e)) => panic!("{e}"),
                Poll::Ready(Ok(())) if rb.filled().is_empty() => break,
                Poll::Ready(Ok(())) => v.extend_from_slice(rb.filled()),
            }
            tries += 1;
            assert!(tries < 1000);
        }
        assert_eq!(v.len(), 150);
    });
}
"""))

BUGS.append(("c13-coalesced-chunks", "C13",
 "A source that becomes pending (or fails) after part of a chunk was read, and then repositioning the stream's reader or converting the stream back",
 "The stream collects full chunks and keeps a partial one in its buffer over pending polls: bytes of it are lost by into_reader(), and come out stale after a reposition",
 {"src/bytes.rs": [
 ("        assert!(projected.buffer.is_empty());\n", ""),
 ("""        let n = std::task::ready!(poll_read_buf(projected.reader, cx, projected.buffer))? as u64;

        if n == 0 {
            return Poll::Ready(None);
        }
""", """        // Collecting full chunks: tiny ones (headers) are expensive for the consumer
        let mut reader = projected.reader;
        while projected.buffer.len() < READ_SIZE {
            let n = std::task::ready!(poll_read_buf(reader.as_mut(), cx, projected.buffer))?;
            if n == 0 {
                break;
            }
        }

        if projected.buffer.is_empty() {
            return Poll::Ready(None);
        }
"""),
 ("use std::{\n    io::Result,", "use std::{\n    io::Result,"),
 ]},
H + """
use futures_core::Stream;
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    src.script(&[Act::Pend]);
    let mut s = b.build().into_bytes_stream();
    let mut cx = Context::from_waker(Waker::noop());
    let mut out = Vec::new();
    for _ in 0..3 {
        if let Poll::Ready(Some(Ok(c))) = Pin::new(&mut s).poll_next(&mut cx) {
            out.extend_from_slice(&c);
            src.script(&[Act::Pend]);
        } else {
            break;
        }
    }
    let mut r = Box::pin(s.into_reader());
    assert_eq!(r.tell(), out.len() as u64);
    out.extend(read_all(&mut r, 100).unwrap());
    assert!(out == good);
}
"""))

BUGS.append(("c02-entry-count", "C02",
 "An archive with more than 65535 entries",
 "The ZIP64 end of central directory record announces only 65535 entries",
 {F: [
 ("                this_cd_entry_count: entries.len() as u64,\n                total_cd_entry_count: entries.len() as u64,",
  "                this_cd_entry_count: u64::from(entry_count),\n                total_cd_entry_count: u64::from(entry_count),"),
 ("                this_cd_entry_count: u16::MAX,\n                total_cd_entry_count: u16::MAX,",
  "                this_cd_entry_count: entry_count,\n                total_cd_entry_count: entry_count,"),
 ("        output: &mut ReadBuf<'_>,\n    ) -> bool {\n        self.read_packed_struct(\n            structs::Zip64EndOfCentralDirectoryRecord {",
  "        output: &mut ReadBuf<'_>,\n    ) -> bool {\n        let entry_count = u16::try_from(entries.len()).unwrap_or(u16::MAX);\n        self.read_packed_struct(\n            structs::Zip64EndOfCentralDirectoryRecord {"),
 ]},
"""
mod common;
use common::*;
fn main() {
    let mut b = zippity::Builder::<Vec<u8>>::new();
    for i in 0..70_000 {
        b.add_entry(format!("{i}"), Vec::new()).unwrap();
    }
    let mut r = Box::pin(b.build());
    let size = r.size();
    r.as_mut().seek_from_start_pinned(size - 98);
    let v = read_all(&mut r, 98).unwrap();
    let n = u64::from_le_bytes(v[32..40].try_into().unwrap());
    assert_eq!(n, 70_000);
}
"""))

BUGS.append(("c17-link-target-lossy", "C17",
 "A symbolic link whose target is not valid UTF-8",
 "The stored target has replacement characters instead of the real bytes",
 {"src/filesystem_entry.rs": [
 ("                target_bytes: target.as_os_str().as_encoded_bytes().into(),",
  "                target_bytes: target.to_string_lossy().as_bytes().into(),")]},
H + """
use std::os::unix::ffi::OsStrExt;
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    let target = [b'a', 0xff, 0x80, b'z'];
    std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(&target), dir.join("link")).unwrap();
    let mut b = Builder::<FilesystemEntry>::new();
    rt.block_on(b.add_directory_recursive(dir, None)).unwrap();
    let mut r = Box::pin(b.build());
    let v = read_all(&mut r, 1000).unwrap();
    assert!(v.windows(4).any(|w| w == target));
}
"""))

BUGS.append(("c18-permission-skipped", "C18",
 "A subdirectory that can't be opened for listing (permission denied) during a recursive scan",
 "Everything in the unreadable directory is silently left out and the scan succeeds",
 {"src/filesystem_entry.rs": [
 ("            let mut dir = read_dir(path).await?;",
  """            let mut dir = match read_dir(path).await {
                Ok(dir) => dir,
                // Added as an empty directory
                Err(e) if e.kind() == std::io::ErrorKind::PermissionDenied => continue,
                Err(e) => return Err(e.into()),
            };""")]},
r"""
//! Interposes opendir so that opening a directory is refused.
use std::ffi::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
unsafe extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
}
static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(name: *const c_char) -> *mut c_void {
    if LEFT.fetch_sub(1, SeqCst) == 0 {
        unsafe { *__errno_location() = 13 };
        return std::ptr::null_mut();
    }
    let real: unsafe extern "C" fn(*const c_char) -> *mut c_void =
        unsafe { std::mem::transmute(dlsym(-1isize as *mut c_void, c"opendir".as_ptr())) };
    unsafe { real(name) }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::fs::write(dir.join("sub/file"), b"x").unwrap();
    for n in [0, 1] {
        let mut b = zippity::Builder::<zippity::FilesystemEntry>::new();
        LEFT.store(n, SeqCst);
        let result = rt.block_on(b.add_directory_recursive(dir.clone(), None));
        LEFT.store(i64::MAX, SeqCst);
        assert!(result.is_err(), "the content of an unreadable directory was left out");
    }
    let mut b = zippity::Builder::<zippity::FilesystemEntry>::new();
    rt.block_on(b.add_directory_recursive(dir, None)).unwrap();
    assert_eq!(b.get_entries().len(), 2);
}
"""))

BUGS.append(("c19-cancel-loses", "C19",
 "Dropping the future of add_directory_recursive before it finishes",
 "The scan works on the builder moved out of the caller's one: when it is cancelled, all entries added before are lost",
 {"src/filesystem_entry.rs": [
 ("        let mut stack = vec![directory.clone()];",
  "        let mut work = std::mem::take(self);\n        let result = work.scan_directory(directory, directory_metadata, root_name).await;\n        *self = work;\n        result\n    }\n\n    /// Adds everything in the given directory.\n    async fn scan_directory(\n        &mut self,\n        directory: PathBuf,\n        directory_metadata: Metadata,\n        root_name: Option<String>,\n    ) -> Result<(), AddDirectoryRecursiveError> {\n        let mut stack = vec![directory.clone()];"),
 ]},
H + """
use std::future::Future;
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    std::fs::write(dir.join("f"), b"x").unwrap();
    let meta = std::fs::metadata(dir.join("f")).unwrap();
    for polls in 0..20 {
        let mut b = Builder::<FilesystemEntry>::new();
        rt.block_on(b.add_filesystem_entry("kept".into(), dir.join("f"), &meta)).unwrap();
        rt.block_on(async {
            let mut scan = Box::pin(b.add_directory_recursive(dir.clone(), None));
            for _ in 0..polls {
                let done = std::future::poll_fn(|cx| Poll::Ready(scan.as_mut().poll(cx).is_ready())).await;
                if done {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(60));
                tokio::task::yield_now().await;
            }
        });
        assert!(b.get_entries().contains_key("kept"), "lost after {polls} polls");
    }
}
"""))

BUGS.append(("c20-offset-cached", "C20",
 "A time zone whose offset changes over the year, and a time with another offset than on 1970-01-01",
 "The offset of the time zone is looked up only once, times in the other part of the year are stored shifted",
 {"src/builder.rs": [
 ("            .with_timezone(&tz)\n", "            .with_timezone(&offset)\n"),
 ("    use chrono::{DateTime, Utc};\n", "    use chrono::{DateTime, Offset, Utc};\n"),
 ("    use std::time::{Duration, UNIX_EPOCH};\n", "    use std::time::{Duration, UNIX_EPOCH};\n\n    // Looking up the offset is expensive, it is done only once\n    let offset = tz.offset_from_utc_datetime(&DateTime::UNIX_EPOCH.naive_utc()).fix();\n"),
 ]},
r"""
mod common;
use common::*;
use chrono::*;
use std::time::{Duration, UNIX_EPOCH};
#[derive(Clone, Copy, Debug)]
struct Z;
#[derive(Clone, Copy, Debug)]
struct O(i32);
impl Offset for O {
    fn fix(&self) -> FixedOffset {
        FixedOffset::east_opt(self.0).unwrap()
    }
}
impl TimeZone for Z {
    type Offset = O;
    fn from_offset(_: &O) -> Z {
        Z
    }
    fn offset_from_local_date(&self, d: &NaiveDate) -> LocalResult<O> {
        LocalResult::Single(self.offset_from_utc_date(d))
    }
    fn offset_from_local_datetime(&self, d: &NaiveDateTime) -> LocalResult<O> {
        self.offset_from_local_date(&d.date())
    }
    fn offset_from_utc_date(&self, d: &NaiveDate) -> O {
        O(if (4..10).contains(&d.month()) { 7200 } else { 3600 })
    }
    fn offset_from_utc_datetime(&self, d: &NaiveDateTime) -> O {
        self.offset_from_utc_date(&d.date())
    }
}
fn main() {
    for (month, hours) in [(1, 1), (7, 2)] {
        let t = NaiveDate::from_ymd_opt(2020, month, 10).unwrap().and_hms_opt(10, 20, 30).unwrap();
        let secs = t.and_utc().timestamp();
        let make = |system: bool| {
            let mut b = zippity::Builder::<Vec<u8>>::new();
            b.system_time_timezone(Z);
            let e = b.add_entry("a".to_string(), b"abc".to_vec()).unwrap();
            if system {
                e.datetime_system(UNIX_EPOCH + Duration::from_secs(secs as u64)).unwrap();
            } else {
                e.datetime(t + TimeDelta::hours(hours)).unwrap();
            }
            read_all(&mut Box::pin(b.build()), 1000).unwrap()
        };
        assert!(make(true) == make(false), "month {month}");
    }
}
"""))

BUGS.append(("c16-shared-crcs", "C16",
 "Cloning a Reader and reading one of the two",
 "Clones of a Reader share what they know about CRCs: one that read wrong or changed data changes the CRCs reported and written by the others",
 {F: [
 ("    crc32: Option<u32>,\n    datetime: structs::DosDatetime,\n    external_attributes: u32,\n    /// Number", "    /// Shared by all clones of the reader, so that everybody profits from CRCs calculated by others\n    crc32: std::sync::Arc<std::sync::OnceLock<u32>>,\n    datetime: structs::DosDatetime,\n    external_attributes: u32,\n    /// Number"),
 ("            offset,\n            crc32,\n            datetime,", "            offset,\n            crc32: std::sync::Arc::new(crc32.map_or_else(Default::default, Into::into)),\n            datetime,"),
 ("        if let Some(crc) = self.crc32 {\n            return Poll::Ready(Ok(crc));", "        if let Some(crc) = self.crc32.get().copied() {\n            return Poll::Ready(Ok(crc));"),
 ("            self.crc32 = Some(crc);\n            return", "            let _ = self.crc32.set(crc);\n            return"),
 ("        self.crc32 = Some(crc32);\n", "        let _ = self.crc32.set(crc32);\n"),
 ("            if entry.crc32.is_none() {\n                let mut read", "            if entry.crc32.get().is_none() {\n                let mut read"),
 ("                && let Some(expected_crc) = entry.crc32\n", "                && let Some(&expected_crc) = entry.crc32.get()\n"),
 ("            if actual_crc.is_some() {\n                entry.crc32 = actual_crc;\n            }", "            if let Some(crc) = actual_crc {\n                let _ = entry.crc32.set(crc);\n            }"),
 ("""                    if output.remaining() != initial_remaining
                        && entries[entry_index].crc32.is_none()
                    {
                        // Calculating the CRC might fail or return Pending -> same as in EntryData
                        break;
                    }
                    zippity_ready!(self.read_data_descriptor(""", """                    if output.remaining() != initial_remaining
                        && entries[entry_index].crc32.get().is_none()
                    {
                        // Calculating the CRC might fail or return Pending -> same as in EntryData
                        break;
                    }
                    zippity_ready!(self.read_data_descriptor("""),
 ("""                    if output.remaining() != initial_remaining
                        && entries[entry_index].crc32.is_none()
                    {
                        // Calculating the CRC might fail or return Pending -> same as in EntryData
                        break;
                    }
                    zippity_ready!(self.read_cd_file_header(""", """                    if output.remaining() != initial_remaining
                        && entries[entry_index].crc32.get().is_none()
                    {
                        // Calculating the CRC might fail or return Pending -> same as in EntryData
                        break;
                    }
                    zippity_ready!(self.read_cd_file_header("""),
 ("            .filter_map(|entry| entry.crc32.map(|crc| (entry.name.as_str(), crc)))", "            .filter_map(|entry| entry.crc32.get().map(|crc| (entry.name.as_str(), *crc)))"),
 ]},
H + """
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(1000, 1))).unwrap();
    let mut r = Box::pin(b.build());
    let c = (*r).clone();
    read_all(&mut r, 300).unwrap();
    assert_eq!(r.crc32s().count(), 1);
    assert_eq!(c.crc32s().count(), 0, "the clone has changed");
}
"""))

BUGS.append(("c08-reopen-after-error", "C08",
 "A read error in the middle of an entry's data, then a retry of the read without a seek",
 "The failed source is closed and opened again from its beginning, so that the retried read delivers the beginning of the entry again",
 {F: [
 ("        let mut file_reader = ready!(entry.get_reader(pinned.as_mut(), ctx))?;\n\n        if self.to_skip > 0 {",
  "        if let Err(e) = ready!(self.poll_entry_reader(entry, pinned.as_mut(), ctx)) {\n            // A source which failed has to be opened again\n            pinned.set(ReaderPinned::Nothing);\n            return Poll::Ready(Err(e));\n        }\n        let mut file_reader = ready!(entry.get_reader(pinned.as_mut(), ctx))?;\n\n        if self.to_skip > 0 {"),
 ]}, ""))
BUGS.pop()  # see the simpler form below

BUGS.append(("c08-reopen-after-error", "C08",
 "A read error in the middle of an entry's data, then a retry of the read without a seek",
 "The failed source is closed and opened again from its beginning, so that the retried read delivers the beginning of the entry again",
 {F: [
 ("""                    zippity_ready!(self.read_entry_data(
                        &mut entries[entry_index],
                        pinned.as_mut(),
                        ctx,
                        output,
                    ))""",
  """                    let result =
                        self.read_entry_data(&mut entries[entry_index], pinned.as_mut(), ctx, output);
                    if let Poll::Ready(Err(e)) = &result
                        && e.get_ref().is_none_or(|e| !e.is::<ReadError>())
                    {
                        // The source failed, don't keep it open
                        pinned.set(ReaderPinned::Nothing);
                    }
                    zippity_ready!(result)"""),
 ]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    src.script(&[Act::Ok, Act::Ok, Act::Ok, Act::Fail(ErrorKind::Other)]);
    let mut r = Box::pin(b.build());
    let mut out = Vec::new();
    loop {
        match poll_read(&mut r, 300) {
            Poll::Pending | Poll::Ready(Err(_)) => {}
            Poll::Ready(Ok(v)) if v.is_empty() => break,
            Poll::Ready(Ok(v)) => {
                assert!(good[out.len()..].starts_with(&v), "wrong bytes at {}", out.len());
                out.extend(v);
            }
        }
    }
    assert!(out == good);
}
"""))

BUGS.append(("c05-eof-clamps", "C05",
 "Seeking past the end of the archive and reading (end of file) there, then tell() or a relative seek",
 "A read at end of file moves the position back to the end of the archive",
 {F: [
 ("            if let Chunk::Finished = self.current_chunk {\n                break;",
  "            if let Chunk::Finished = self.current_chunk {\n                // Nothing is there behind the end\n                self.position = self.position.min(sizes.total_size);\n                break;"),
 ]},
H + """
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(1000, 1))).unwrap();
    let mut r = Box::pin(b.build());
    let end = r.size() + 77;
    r.as_mut().seek_from_start_pinned(end);
    assert!(read_all(&mut r, 10).unwrap().is_empty());
    assert_eq!(r.tell(), end);
}
"""))

BUGS.append(("c15-error-drops-reader", "C15",
 "A data source failing while a response with the channel variant is being sent",
 "After a failed response the receiver gets a closed channel instead of the reader",
 {"src/actix_web.rs": [
 ("""        let bytes_stream = projected.inner.project().bytes_stream;
        let block = ready!(bytes_stream.poll_next(cx)).expect("The total number of bytes written is limited, we should never reach the actual end of the stream")?;
""",
 """        let inner = projected.inner.project();
        let block = match ready!(inner.bytes_stream.poll_next(cx)).expect("The total number of bytes written is limited, we should never reach the actual end of the stream") {
            Ok(block) => block,
            Err(e) => {
                // The reader is damaged, it isn't worth returning
                *inner.drop_channel = None;
                return Poll::Ready(Some(Err(e)));
            }
        };
"""),
 ]},
H + """
use actix_web::Responder;
use actix_web::body::MessageBody;
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    src.script(&[Act::Ok, Act::Fail(ErrorKind::Other)]);
    let (a, mut rx) = b.build().into_responder_with_channel();
    let req = actix_web::test::TestRequest::get().to_http_request();
    let mut body = Box::pin(a.respond_to(&req).into_body());
    let mut failed = false;
    for _ in 0..100 {
        match body.as_mut().poll_next(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(Some(Err(_))) => {
                failed = true;
                break;
            }
            Poll::Ready(None) => break,
            _ => {}
        }
    }
    assert!(failed);
    drop(body);
    let r = rx.try_recv().expect("the reader has to be returned");
    assert!(r.size() > 1000);
}
"""))

BUGS.append(("c07-seek-forgotten", "C07",
 "A source whose seek is pending at first, for a read in the middle of an entry with a supplied CRC",
 "The part to skip is forgotten before the seek completes: the next poll reads from the source while its seek is in progress",
 {F: [
 ("""                let pos_after_seek = ready!(file_reader.as_mut().seek(
                    &entry.data,
                    ctx,
                    SeekFrom::Start(self.to_skip)
                ))?;
                if pos_after_seek != self.to_skip {""",
  """                let target = std::mem::take(&mut self.to_skip);
                self.chunk_processed_size += target;
                let pos_after_seek = ready!(file_reader.as_mut().seek(
                    &entry.data,
                    ctx,
                    SeekFrom::Start(target)
                ))?;
                if pos_after_seek != target {"""),
 ("                self.chunk_processed_size += self.to_skip;\n                self.to_skip = 0;\n", ""),
 ]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap().crc32(crc32fast::hash(&src.data));
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    src.script(&[Act::Ok, Act::Pend]);
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(500);
    assert!(read_all(&mut r, 100).unwrap() == good[500..]);
}
"""))

BUGS.append(("c09-no-eof-probe", "C09",
 "A source that is longer than announced, while the reads happen to end exactly at the announced size",
 "When exactly the announced number of bytes was read, the entry is considered complete without checking that the source really ends there: a longer source is not noticed",
 {F: [
 ("            Poll::Ready(Ok(false))\n",
  """            if self.chunk_processed_size == entry.size && entry.crc32.is_none() {
                // That was everything, this saves another poll of the source
                entry.crc32 = file_reader.get_crc32();
                pinned.set(ReaderPinned::Nothing);
                return Poll::Ready(Ok(true));
            }

            Poll::Ready(Ok(false))
"""),
 ]},
H + """
fn main() {
    for cap in 1..1200 {
        let mut src = Src::new(pattern(1100, 1));
        src.announced = 1000;
        let mut b = Builder::<Src>::new();
        b.add_entry("a".into(), src.clone()).unwrap();
        let mut r = Box::pin(b.build());
        assert!(read_all(&mut r, cap).is_err(), "not noticed when reading by {cap}");
    }
}
"""))

BUGS.append(("c14-serves-from-position", "C14",
 "A response without a Range header made from a Reader which is not at its beginning",
 "The body starts at the current position of the reader, although the headers announce the whole archive; it panics at the end",
 {"src/actix_web.rs": [
 ("            (*range.start(), *range.end() - *range.start() + 1)\n        } else {\n            (0, size)\n        };",
  "            self.inner\n                .bytes_stream\n                .reader_mut()\n                .seek_from_start_mut(*range.start());\n            (*range.start(), *range.end() - *range.start() + 1)\n        } else {\n            (0, size)\n        };"),
 ("        self.inner\n            .bytes_stream\n            .reader_mut()\n            .seek_from_start_mut(offset);\n\n        response.body", "        response.body"),
 ]},
H + """
use actix_web::Responder;
use actix_web::body::MessageBody;
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(1000, 1))).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut r = b.build();
    r.seek_from_start_mut(100);
    let req = actix_web::test::TestRequest::get().to_http_request();
    let mut body = Box::pin(r.into_responder().respond_to(&req).into_body());
    let mut out = Vec::new();
    while let Poll::Ready(Some(c)) = body.as_mut().poll_next(&mut Context::from_waker(Waker::noop())) {
        out.extend_from_slice(&c.unwrap());
    }
    assert!(out == good);
}
"""))

BUGS.append(("c21-adaptive-chunks", "C21",
 "Streaming a large entry from a source that always fills the whole buffer",
 "The chunk size of a stream doubles with every completely filled chunk, without a limit: memory grows with the size of the entries",
 {"src/bytes.rs": [
 ("    buffer: BytesMut,\n}", "    buffer: BytesMut,\n    chunk_size: usize,\n}"),
 ("            buffer: BytesMut::with_capacity(READ_SIZE),\n        }", "            buffer: BytesMut::with_capacity(READ_SIZE),\n            chunk_size: READ_SIZE,\n        }"),
 ("            std::mem::replace(projected.buffer, BytesMut::with_capacity(READ_SIZE)).freeze();",
  "            std::mem::replace(projected.buffer, BytesMut::with_capacity(*projected.chunk_size))\n                .freeze();\n        if result.len() >= *projected.chunk_size {\n            // A fast source, larger chunks are more efficient\n            *projected.chunk_size *= 2;\n        }"),
 ]},
"""
use futures_core::Stream;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
fn main() {
    let mut b = zippity::Builder::<Vec<u8>>::new();
    b.add_entry("a".to_string(), vec![7; 50_000_000]).unwrap();
    let mut s = b.build().into_bytes_stream();
    let mut cx = Context::from_waker(Waker::noop());
    while let Poll::Ready(Some(c)) = Pin::new(&mut s).poll_next(&mut cx) {
        let n = c.unwrap().len();
        assert!(n <= 1_000_000, "a chunk of {n} bytes");
    }
}
"""))

BUGS.append(("c06-short-read-is-end", "C06",
 "A source that returns less than asked for while a CRC is computed without delivering the data",
 "A short read is taken for the end of the source, and the CRC of only the first part of the data is remembered and written",
 {F: [
 ("            if read_buffer.filled().is_empty() {\n                break;\n            }\n        }\n\n        let crc32",
  "            if read_buffer.remaining() > 0 {\n                // Less than we asked for, that was the end of the file\n                break;\n            }\n        }\n\n        let crc32"),
 ]},
H + """
fn main() {
    let src = Src::new(pattern(1000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(good.len() as u64 - 160);
    src.script(&[Act::Ok, Act::Short(10)]);
    assert!(read_all(&mut r, 300).unwrap() == good[good.len() - 160..]);
    assert_eq!(r.crc32s().next().unwrap().1, crc32fast::hash(&src.data));
}
"""))

BUGS.append(("c04-forward-seek", "C04",
 "A seek forward, by more than the read size, inside of the data of the entry that is just being read, whose CRC is known already",
 "Seeks forward within an entry keep the source open and skip; when the CRC is known, the skipping seeks the source to a position relative to the current one instead of to the absolute one",
 {F: [
 ("        let mut projected = self.project();\n        projected\n            .read_state\n            .seek_from_start(projected.sizes",
  "        let mut projected = self.project();\n        let state = &mut *projected.read_state;\n        if let Chunk::EntryData { entry_index } = state.current_chunk\n            && state.to_skip == 0\n            && offset >= state.position + READ_SIZE as u64\n            && offset - state.position < projected.entries[entry_index].size - state.chunk_processed_size.min(projected.entries[entry_index].size)\n        {\n            // Far, but still in the same entry, its data source can be used further\n            state.to_skip = offset - state.position;\n            state.position = offset;\n            return;\n        }\n        projected\n            .read_state\n            .seek_from_start(projected.sizes"),
 ]},
H + """
fn main() {
    let src = Src::new(pattern(50000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap().crc32(crc32fast::hash(&src.data));
    let good = read_all(&mut Box::pin(b.clone().build()), 300).unwrap();
    let mut r = Box::pin(b.build());
    assert!(read_n(&mut r, 1000).unwrap() == good[..1000]);
    r.as_mut().seek_from_start_pinned(30000);
    let mut out = Vec::new();
    while out.len() < good.len() - 30000 {
        match poll_read(&mut r, 300) {
            Poll::Ready(Ok(v)) => out.extend(v),
            Poll::Pending => {}
            Poll::Ready(Err(e)) => panic!("{e}"),
        }
    }
    assert!(out == good[30000..]);
}
"""))

BUGS.append(("c18-learned-crc", "C18",
 "A file changing its content, but not its length, between two reads of the same Reader",
 "A CRC learned in an earlier pass is neither verified nor replaced when the data are read again: the archive with the changed data has the old CRC and no error is reported",
 {F: [
 ("    crc32: Option<u32>,\n    datetime: structs::DosDatetime,\n    external_attributes: u32,\n    /// Number", "    crc32: Option<u32>,\n    /// The CRC was given by the user, so it might be wrong\n    verify_crc32: bool,\n    datetime: structs::DosDatetime,\n    external_attributes: u32,\n    /// Number"),
 ("            offset,\n            crc32,\n            datetime,", "            offset,\n            crc32,\n            verify_crc32: crc32.is_some(),\n            datetime,"),
 ("            let actual_crc = file_reader.get_crc32();\n", "            // A value that we have calculated ourselves needs no verification\n            let actual_crc = if entry.crc32.is_some() && !entry.verify_crc32 {\n                None\n            } else {\n                file_reader.get_crc32()\n            };\n"),
 ]},
H + """
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    std::fs::create_dir(&dir).unwrap();
    std::fs::write(dir.join("f"), b"first version").unwrap();
    let mut b = Builder::<FilesystemEntry>::new();
    rt.block_on(b.add_directory_recursive(dir.clone(), None)).unwrap();
    let mut r = b.build();
    rt.block_on(async {
        let mut v = Vec::new();
        r.read_to_end(&mut v).await.unwrap();
        std::fs::write(dir.join("f"), b"other version").unwrap();
        r.seek(SeekFrom::Start(0)).await.unwrap();
        let mut v = Vec::new();
        if r.read_to_end(&mut v).await.is_ok() {
            let crc = crc32fast::hash(b"other version").to_le_bytes();
            assert!(v.windows(4).any(|w| w == crc), "the CRC is of other data than were delivered");
        }
    });
}
"""))

BUGS.append(("c19-size-before-duplicate", "C19",
 "An addition that is refused, because the name exists already",
 "The refused entry is counted in the size of the archive",
 {"src/builder.rs": [
 ("        let map_vacant_entry = match self.entries.entry(name) {", "        let data = data.into();\n        let new_size = headers_size\n            .checked_add(data.size())\n            .and_then(|s| s.checked_add(current_size));\n        let Some(new_size) = new_size else {\n            return Err(AddEntryError::TooLongZipFile { entry_name: name });\n        };\n        self.total_size = Some(new_size);\n\n        let map_vacant_entry = match self.entries.entry(name) {"),
 ("""        let data = data.into();
        self.total_size = match headers_size
            .checked_add(data.size())
            .and_then(|s| s.checked_add(current_size))
        {
            Some(size) => Some(size),
            None => {
                return Err(AddEntryError::TooLongZipFile {
                    entry_name: map_vacant_entry.into_key(),
                });
            }
        };

""", ""),
 ]},
"""
fn main() {
    let mut b = zippity::Builder::<Vec<u8>>::new();
    b.add_entry("a".to_string(), vec![7; 50]).unwrap();
    assert!(b.add_entry("a".to_string(), vec![7; 50]).is_err());
    assert_eq!(b.size(), b.clone().build().size());
}
"""))
