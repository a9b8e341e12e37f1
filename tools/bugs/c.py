BUGS = []
H = """
mod common;
use common::*;
#[allow(unused_imports)]
use std::io::{ErrorKind, SeekFrom};
#[allow(unused_imports)]
use std::pin::Pin;
#[allow(unused_imports)]
use std::task::{Context, Poll, Waker};
#[allow(unused_imports)]
use zippity::{Builder, BytesStream, FilesystemEntry, Reader};
#[allow(unused_imports)]
use tokio::io::{AsyncReadExt, AsyncSeekExt, AsyncSeek, AsyncRead, ReadBuf};
"""
F = "src/reader.rs"

BUGS.append(("c10-trusts-large", "C10",
 "A wrong supplied CRC of an entry larger than 1 MiB",
 "Data of large entries with a supplied CRC are not checksummed, so that a wrong supplied CRC is never reported",
 {F: [
  ("            let reader_future = self.data.get_reader();\n            pinned.set(ReaderPinned::ReaderFuture(reader_future));\n        }\n\n        if",
   "            let reader_future = self.data.get_reader();\n            pinned.set(ReaderPinned::ReaderFuture(reader_future));\n        }\n\n        let needs_crc = self.crc32.is_none() || self.size <= MAX_VERIFIED_SIZE;\n\n        if"),
  ("        match pinned.project() {\n            ReaderPinnedProj::FileReader(reader) => Poll::Ready(Ok(reader)),",
   "        match pinned.project() {\n            ReaderPinnedProj::FileReader(mut reader) => {\n                if !needs_crc {\n                    reader.as_mut().disable();\n                }\n                Poll::Ready(Ok(reader))\n            }"),
  ("pub(crate) const READ_SIZE: usize = 8192;\n", "pub(crate) const READ_SIZE: usize = 8192;\n/// Checksumming larger entries only to verify the CRC would be too slow.\nconst MAX_VERIFIED_SIZE: u64 = 1024 * 1024;\n"),
  ],
  "src/crc_reader.rs": [
  ("    pub fn seek<D>(\n", "    /// Stops calculating the CRC\n    pub fn disable(self: Pin<&mut Self>) {\n        *self.project().did_seek = true;\n    }\n\n    pub fn seek<D>(\n"),
  ("        projected.hasher.update(&buf.filled()[filled_len_before..]);\n", "        if !*projected.did_seek {\n            projected.hasher.update(&buf.filled()[filled_len_before..]);\n        }\n"),
  ]},
H + """
fn main() {
    let src = Src::new(pattern(1_500_000, 1));
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap().crc32(crc32fast::hash(&src.data) ^ 1);
    let mut r = Box::pin(b.build());
    for _ in 0..2 {
        r.as_mut().seek_from_start_pinned(0);
        assert!(read_all(&mut r, 10_000).is_err(), "wrong CRC not reported");
    }
}
"""))

BUGS.append(("c04-directory-jump", "C04",
 "A seek inside of the central directory of an archive with more than 256 entries, whose first and last names have the same length, but others don't",
 "The central directory header to start from is calculated as if all names were of the same length",
 {F: [
  ("            (Chunk::CDFileHeader { entry_index: 0 }, sizes.cd_offset)\n",
   "            let chunk = Chunk::CDFileHeader { entry_index: 0 };\n            let header_size = chunk.size(entries);\n            let last = entries.len() - 1;\n            if last >= 256 && header_size == (Chunk::CDFileHeader { entry_index: last }).size(entries) {\n                // All headers are of the same size, no need to walk through them one by one\n                let skipped = ((offset - sizes.cd_offset) / header_size).min(last as u64);\n                let entry_index = usize::try_from(skipped).unwrap_or(last);\n                (\n                    Chunk::CDFileHeader { entry_index },\n                    sizes.cd_offset + skipped * header_size,\n                )\n            } else {\n                (chunk, sizes.cd_offset)\n            }\n"),
  ]},
H + """
fn main() {
    let src = Src::new(pattern(3, 1));
    let mut b = Builder::<Src>::new();
    for i in 1000..1400 {
        let name = if i == 1200 { "longer".to_owned() } else { i.to_string() };
        b.add_entry(name, src.clone()).unwrap().crc32(crc32fast::hash(&src.data));
    }
    let good = read_all(&mut Box::pin(b.clone().build()), 10_000).unwrap();
    let mut r = Box::pin(b.build());
    for back in [150, 1000, 5000, 17000, 25000] {
        r.as_mut().seek_from_start_pinned((good.len() - back) as u64);
        assert!(read_all(&mut r, 10_000).unwrap() == good[good.len() - back..], "wrong bytes {back} before the end");
    }
}
"""))

BUGS.append(("c17-work-list", "C17",
 "A directory with more than 64 subdirectories",
 "Subdirectories over the size of the work list are added as entries, but never descended into",
 {"src/filesystem_entry.rs": [
  ("                if metadata.is_dir() {\n                    stack.push(path.clone());", "                // Keep the work list small\n                if metadata.is_dir() && stack.len() < 64 {\n                    stack.push(path.clone());"),
  ]},
H + """
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let dir = std::env::current_dir().unwrap().join("tree");
    for i in 0..70 {
        std::fs::create_dir_all(dir.join(i.to_string())).unwrap();
        std::fs::write(dir.join(i.to_string()).join("f"), b"x").unwrap();
    }
    let mut b = Builder::<FilesystemEntry>::new();
    rt.block_on(b.add_directory_recursive(dir.clone(), None)).unwrap();
    for i in 0..70 {
        assert!(b.get_entries().contains_key(&format!("{i}/f")), "{i}/f is missing");
    }
}
"""))

BUGS.append(("c21-whole-skip", "C21",
 "A seek deep into the data of a large entry whose CRC is not known",
 "The skipped data are read through a buffer as large as everything that has to be skipped",
 {F: [
  ("                let mut read_buffer = get_read_buf(&mut self.staging_buffer);\n\n                while self.to_skip > 0 {",
   "                // Skip with as few reads as possible\n                let buffer_size = usize::try_from(self.to_skip).unwrap_or(usize::MAX).max(READ_SIZE);\n                self.staging_buffer.reserve(buffer_size);\n                let mut read_buffer =\n                    ReadBuf::uninit(&mut self.staging_buffer.spare_capacity_mut()[..buffer_size]);\n\n                while self.to_skip > 0 {"),
  ]},
H + """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, SeqCst); unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), Src::new(pattern(4_000_000, 1))).unwrap();
    let mut r = Box::pin(b.build());
    r.as_mut().seek_from_start_pinned(3_900_000);
    MAX.store(0, SeqCst);
    read_n(&mut r, 1000).unwrap();
    let max = MAX.load(SeqCst);
    assert!(max < 1_000_000, "allocated {max} B");
}
"""))

BUGS.append(("c20-readonly-keeps-bits", "C20",
 "readonly() called after unix permissions were set",
 "Setting an entry read only or read-write modifies the permission bits set before instead of overriding them",
 {"src/builder.rs": [
  ("        self.permissions = if ro {\n            BuilderPermissions::Ro\n        } else {\n            BuilderPermissions::Rw\n        };",
   "        self.permissions = match (self.permissions, ro) {\n            (BuilderPermissions::UnixPermissions(p), true) => {\n                BuilderPermissions::UnixPermissions(p & !0o222)\n            }\n            (BuilderPermissions::UnixPermissions(p), false) => {\n                BuilderPermissions::UnixPermissions(p | 0o200)\n            }\n            (_, true) => BuilderPermissions::Ro,\n            (_, false) => BuilderPermissions::Rw,\n        };"),
  ]},
H + """
fn main() {
    for ro in [false, true] {
        let mut b = Builder::<Src>::new();
        b.add_entry("a".into(), Src::new(pattern(3, 1))).unwrap().unix_permissions(0o700).readonly(ro);
        let mut c = Builder::<Src>::new();
        c.add_entry("a".into(), Src::new(pattern(3, 1))).unwrap().readonly(ro);
        let b = read_all(&mut Box::pin(b.build()), 100).unwrap();
        let c = read_all(&mut Box::pin(c.build()), 100).unwrap();
        assert!(b == c, "permissions set before still matter");
    }
}
"""))

BUGS.append(("c06-global-cache", "C06",
 "Two entries with the same name and size of at least 64 KiB, but different data, in two archives of the same thread",
 "Learned CRCs are kept in a thread local cache by name and size: an entry of another archive gets the CRC of different data",
 {F: [
  ("        if self.size == 0 {\n            let crc = crc32fast::hash(&[]);",
   "        let cached = CRCS.with_borrow(|crcs| crcs.get(&(self.name.clone(), self.size)).copied());\n        if cached.is_some() {\n            self.crc32 = cached;\n            return self.get_crc(pinned, ctx, read_buffer);\n        }\n\n        if self.size == 0 {\n            let crc = crc32fast::hash(&[]);"),
  ("        pinned.set(ReaderPinned::Nothing);\n\n        self.crc32 = Some(crc32);\n", "        pinned.set(ReaderPinned::Nothing);\n\n        if self.size >= 65536 {\n            // Others are calculated quickly\n            CRCS.with_borrow_mut(|crcs| crcs.insert((self.name.clone(), self.size), crc32));\n        }\n        self.crc32 = Some(crc32);\n"),
  ("/// Represents an entry inside the [`Reader`].\n", "thread_local! {\n    /// Already calculated CRCs by entry name and size\n    static CRCS: std::cell::RefCell<std::collections::HashMap<(String, u64), u32>> =\n        std::cell::RefCell::default();\n}\n\n/// Represents an entry inside the [`Reader`].\n"),
  ]},
H + """
fn main() {
    for i in 0..2 {
        let src = Src::new(pattern(100_000, i));
        let mut b = Builder::<Src>::new();
        b.add_entry("a".into(), src.clone()).unwrap();
        let mut r = b.build();
        let size = r.size();
        r.seek_from_start_mut(size - 120);
        let mut r = Box::pin(r);
        read_all(&mut r, 100).unwrap();
        assert_eq!(r.crc32s().next(), Some(("a", crc32fast::hash(&src.data))));
    }
}
"""))

BUGS.append(("c14-yields-for-ever", "C14",
 "A response body of more than 64 chunks",
 "After every 64 chunks the body gives up its turn by returning pending, but nobody wakes the task: the response never ends",
 {"src/actix_web.rs": [
  ("        let bytes_stream = projected.inner.project().bytes_stream;\n        let block =",
   "        // Don't starve the other connections of the worker\n        *projected.turn += 1;\n        if *projected.turn % 64 == 0 {\n            return Poll::Pending;\n        }\n\n        let bytes_stream = projected.inner.project().bytes_stream;\n        let block ="),
  ("    size: u64,\n    remaining: u64,\n}\n", "    size: u64,\n    remaining: u64,\n    turn: u32,\n}\n"),
  ("            size,\n            remaining: size,\n", "            size,\n            remaining: size,\n            turn: 0,\n"),
  ]},
H + """
use actix_web::{Responder, body::MessageBody};
fn main() {
    let data: &'static [u8] = Vec::leak(pattern(2_000_000, 1));
    let mut b = Builder::<&[u8]>::new();
    b.add_entry("a".into(), data).unwrap();
    let good = b.size();
    let req = actix_web::test::TestRequest::get().to_http_request();
    let response = b.build().into_responder().respond_to(&req);
    let mut body = Box::pin(response.into_body());
    let flag = std::sync::Arc::new(Flag(Default::default()));
    let waker = std::task::Waker::from(flag.clone());
    let mut n = 0;
    loop {
        let before = flag.0.load(std::sync::atomic::Ordering::SeqCst);
        match body.as_mut().poll_next(&mut Context::from_waker(&waker)) {
            Poll::Pending => assert!(flag.0.load(std::sync::atomic::Ordering::SeqCst) > before, "pending and nobody will wake it"),
            Poll::Ready(None) => break,
            Poll::Ready(Some(c)) => n += c.unwrap().len() as u64,
        }
    }
    assert_eq!(n, good);
}
"""))

BUGS.append(("c09-low-bits", "C09",
 "A source longer or shorter than announced by a multiple of 4 GiB",
 "Processed sizes are counted in 32 bits, so that a source too short by exactly 4 GiB is not noticed",
 {F: [
  ("    chunk_processed_size: u64,\n    /// Current position", "    chunk_processed_size: u64,\n    /// Current position"),
  ]}, H) if False else None)
BUGS = [b for b in BUGS if b]

BUGS.append(("c01-odd-buffer", "C01",
 "Buffers of more than 64 KiB that already contain something, and a source filling all of the buffer",
 "Large buffers are filled in two steps; the second step ignores what the buffer contained before",
 {F: [
  ("        let projected = self.project();\n        projected.read_state.read(\n            projected.sizes,\n            projected.entries.as_mut_slice(),\n            projected.pinned,\n            ctx,\n            buf,\n        )\n",
   "        let mut projected = self.project();\n        if buf.remaining() <= LARGE_READ {\n            return projected.read_state.read(\n                projected.sizes,\n                projected.entries.as_mut_slice(),\n                projected.pinned,\n                ctx,\n                buf,\n            );\n        }\n\n        // Don't make the whole large buffer initialized when there is only little to read\n        let mut part = buf.take(LARGE_READ);\n        ready!(projected.read_state.read(\n            projected.sizes,\n            projected.entries.as_mut_slice(),\n            projected.pinned.as_mut(),\n            ctx,\n            &mut part,\n        ))?;\n        let n = part.filled().len();\n        buf.initialize_unfilled_to(n);\n        buf.advance(n);\n        if n < LARGE_READ {\n            return Poll::Ready(Ok(()));\n        }\n\n        match projected.read_state.read(\n            projected.sizes,\n            projected.entries.as_mut_slice(),\n            projected.pinned,\n            ctx,\n            buf,\n        ) {\n            Poll::Pending => Poll::Ready(Ok(())),\n            // It will be reported the next time\n            Poll::Ready(_) => Poll::Ready(Ok(())),\n        }\n"),
  ("pub(crate) const READ_SIZE: usize = 8192;\n", "pub(crate) const READ_SIZE: usize = 8192;\nconst LARGE_READ: usize = 64 * 1024;\n"),
  ]}, None))
BUGS.pop()

BUGS.append(("c08-second-step", "C08",
 "A read with more than 64 KiB of buffer and a source failing once in the second half of it",
 "Large buffers are filled in two steps; an error of the second step is swallowed: when the source works again, the failure was never reported",
 {F: [
  ("        let projected = self.project();\n        projected.read_state.read(\n            projected.sizes,\n            projected.entries.as_mut_slice(),\n            projected.pinned,\n            ctx,\n            buf,\n        )\n",
   "        let mut projected = self.project();\n        projected.as_mut().read_once(ctx, buf)\n"),
  ]}, None))
BUGS.pop()

BUGS.append(("c05-large-reads", "C05",
 "A read with more than 64 KiB of space, with the data source pending after exactly 64 KiB of data",
 "Large reads are made of several steps, when a later one is pending the bytes of the earlier ones are delivered, but tell() doesn't count them",
 {F: [
  ("        let initial_remaining = output.remaining();\n\n        macro_rules! zippity_ready {", "        let initial_remaining = output.remaining();\n        let mut data_bytes = 0;\n\n        macro_rules! zippity_ready {"),
  ("                    let entry_index = *entry_index;\n                    if output.remaining() != initial_remaining {\n                        // We have",
   "                    let entry_index = *entry_index;\n                    if output.remaining() != initial_remaining && data_bytes == 0 {\n                        // We have"),
  ("                    zippity_ready!(self.read_entry_data(\n                        &mut entries[entry_index],\n                        pinned.as_mut(),\n                        ctx,\n                        output,\n                    ))\n",
   "                    let before = output.remaining();\n                    let polled = self.read_entry_data(\n                        &mut entries[entry_index],\n                        pinned.as_mut(),\n                        ctx,\n                        output,\n                    );\n                    if polled.is_pending() && data_bytes > 0 {\n                        // Deliver at least what we have\n                        return Poll::Ready(Ok(()));\n                    }\n                    let done = zippity_ready!(polled);\n                    // Continue only with sources that provide large blocks\n                    data_bytes = if before - output.remaining() >= 8 * READ_SIZE {\n                        before - output.remaining()\n                    } else {\n                        0\n                    };\n                    done\n"),
  ]}, H + """
fn main() {
    let src = Src::new(pattern(300_000, 1));
    src.script(&[Act::Ok, Act::Short(65536), Act::Pend, Act::Pend]);
    let mut b = Builder::<Src>::new();
    b.add_entry("a".into(), src.clone()).unwrap();
    let mut r = Box::pin(b.build());
    let mut n = 0;
    for _ in 0..20 {
        match poll_read(&mut r, 100_000) {
            Poll::Ready(v) => n += v.unwrap().len(),
            Poll::Pending => {}
        }
        assert_eq!(r.tell(), n as u64);
    }
}
"""))
