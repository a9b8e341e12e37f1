//! A scripted data source and a hand driven executor.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Wake, Waker};

use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{EntryData, Reader};

/// What the next operation of a source does; without any more of these everything just works.
#[derive(Clone, Copy, Debug)]
pub enum Act {
    Ok,
    Pend,
    Fail(ErrorKind),
    /// Read at most this many bytes
    Short(usize),
}

#[derive(Default)]
pub struct Shared {
    pub opens: usize,
    pub live: usize,
    pub reads: usize,
    pub seeks: usize,
    pub script: VecDeque<Act>,
}

#[derive(Clone)]
pub struct Src {
    pub data: Rc<Vec<u8>>,
    pub announced: u64,
    pub shared: Rc<RefCell<Shared>>,
}

impl Src {
    pub fn new(data: Vec<u8>) -> Src {
        let announced = data.len() as u64;
        Src { data: Rc::new(data), announced, shared: Rc::default() }
    }
    pub fn script(&self, acts: &[Act]) {
        self.shared.borrow_mut().script = acts.iter().copied().collect();
    }
    fn act(&self, cx: &mut Context<'_>) -> Poll<Result<usize>> {
        let act = self.shared.borrow_mut().script.pop_front().unwrap_or(Act::Ok);
        match act {
            Act::Ok => Poll::Ready(Ok(usize::MAX)),
            Act::Short(n) => Poll::Ready(Ok(n)),
            Act::Fail(k) => Poll::Ready(Err(Error::new(k, "scripted"))),
            Act::Pend => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}

pub struct Open(Src);
pub struct Rd {
    src: Src,
    pos: u64,
    seek: Option<u64>,
}

impl Future for Open {
    type Output = Result<Rd>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Rd>> {
        match self.0.act(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(_)) => {
                self.0.shared.borrow_mut().live += 1;
                Poll::Ready(Ok(Rd { src: self.0.clone(), pos: 0, seek: None }))
            }
        }
    }
}

impl Drop for Rd {
    fn drop(&mut self) {
        self.src.shared.borrow_mut().live -= 1;
    }
}

impl EntryData for Src {
    type Reader = Rd;
    type Future = Open;
    fn get_reader(&self) -> Open {
        self.shared.borrow_mut().opens += 1;
        Open(self.clone())
    }
    fn size(&self) -> u64 {
        self.announced
    }
}

impl AsyncRead for Rd {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        self.src.shared.borrow_mut().reads += 1;
        let limit = match self.src.act(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        };
        let data = Rc::clone(&self.src.data);
        let start = (self.pos as usize).min(data.len());
        let n = (data.len() - start).min(buf.remaining()).min(limit);
        buf.put_slice(&data[start..start + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for Rd {
    fn start_seek(mut self: Pin<&mut Self>, pos: SeekFrom) -> Result<()> {
        let SeekFrom::Start(p) = pos else { unreachable!() };
        self.src.shared.borrow_mut().seeks += 1;
        self.seek = Some(p);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<u64>> {
        match self.src.act(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r?,
        };
        if let Some(p) = self.seek.take() {
            self.pos = p;
        }
        Poll::Ready(Ok(self.pos))
    }
}

pub struct Flag(pub AtomicUsize);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// One poll with a buffer of `n` bytes; returns what was delivered.
pub fn poll_read<D: EntryData>(r: &mut Pin<Box<Reader<D>>>, n: usize) -> Poll<Result<Vec<u8>>> {
    let mut b = vec![0; n];
    let mut buf = ReadBuf::new(&mut b);
    let mut cx = Context::from_waker(Waker::noop());
    match r.as_mut().poll_read(&mut cx, &mut buf) {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Ready(Ok(())) => Poll::Ready(Ok(buf.filled().to_vec())),
    }
}

/// Reads to the end of file, `n` bytes at a time.
pub fn read_all<D: EntryData>(r: &mut Pin<Box<Reader<D>>>, n: usize) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    for _ in 0..10_000_000 {
        match poll_read(r, n) {
            Poll::Pending => {}
            Poll::Ready(Err(e)) => return Err(e),
            Poll::Ready(Ok(v)) if v.is_empty() => return Ok(out),
            Poll::Ready(Ok(v)) => out.extend(v),
        }
    }
    panic!("no progress");
}

/// Reads exactly `n` bytes.
pub fn read_n<D: EntryData>(r: &mut Pin<Box<Reader<D>>>, n: usize) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    for _ in 0..10_000_000 {
        if out.len() == n {
            return Ok(out);
        }
        match poll_read(r, n - out.len()) {
            Poll::Pending => {}
            Poll::Ready(Err(e)) => return Err(e),
            Poll::Ready(Ok(v)) => {
                assert!(!v.is_empty(), "early end of file");
                out.extend(v);
            }
        }
    }
    panic!("no progress");
}

pub fn pattern(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8).wrapping_add(seed)).collect()
}
