//! The mock transport.  What each poll answers is decided by closures the harness supplies.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    /// more may come
    Open,
    Eof,
    Fail(io::ErrorKind),
}

pub enum ReadAns {
    /// at most this many bytes
    Give(usize),
    Pending,
    Intr,
    Fail(io::ErrorKind),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteAns {
    Take(usize),
    Zero,
    /// pending; wakes at once
    Wait,
    /// pending until `unblock_write`
    Block,
    Fail(io::ErrorKind),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FlushAns {
    Ok,
    Wait,
    Block,
    Fail(io::ErrorKind),
}

pub struct Pipe {
    pub input: VecDeque<u8>,
    pub end: End,
    /// bytes the peer sent so far
    pub sent: usize,
    pub consumed: usize,
    /// read polls answered after the end was reported
    pub reads_after_end: u32,
    pub end_reported: bool,
    pub read_waker: Option<Waker>,
    pub read_polls: u32,
    /// (bytes asked for, bytes there) -> answer
    pub on_read: Option<Box<dyn FnMut(usize, usize) -> ReadAns>>,
    pub out: Vec<u8>,
    pub flushed: usize,
    pub write_waker: Option<Waker>,
    pub write_polls: u32,
    pub on_write: Option<Box<dyn FnMut(usize) -> WriteAns>>,
    pub on_flush: Option<Box<dyn FnMut() -> FlushAns>>,
    pub write_failed: bool,
    /// a write was interrupted: the writer may try again or give up
    pub write_intr: bool,
    pub shutdowns: u32,
    pub dropped: bool,
}

#[derive(Clone)]
pub struct Peer(pub Rc<RefCell<Pipe>>);
pub struct SimIo(Rc<RefCell<Pipe>>);

pub fn pipe() -> (SimIo, Peer) {
    let p = Rc::new(RefCell::new(Pipe {
        input: VecDeque::new(),
        end: End::Open,
        sent: 0,
        consumed: 0,
        reads_after_end: 0,
        end_reported: false,
        read_waker: None,
        read_polls: 0,
        on_read: None,
        out: vec![],
        flushed: 0,
        write_waker: None,
        write_polls: 0,
        on_write: None,
        on_flush: None,
        write_failed: false,
        write_intr: false,
        shutdowns: 0,
        dropped: false,
    }));
    (SimIo(p.clone()), Peer(p))
}

impl Peer {
    pub fn send(&self, b: &[u8]) {
        let mut p = self.0.borrow_mut();
        p.input.extend(b);
        p.sent += b.len();
        if let Some(w) = p.read_waker.take() {
            drop(p);
            w.wake();
        }
    }
    pub fn end(&self, e: End) {
        let mut p = self.0.borrow_mut();
        p.end = e;
        if let Some(w) = p.read_waker.take() {
            drop(p);
            w.wake();
        }
    }
    pub fn unblock_write(&self) {
        let w = self.0.borrow_mut().write_waker.take();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn out(&self) -> Vec<u8> {
        self.0.borrow().out.clone()
    }
    pub fn consumed(&self) -> usize {
        self.0.borrow().consumed
    }
}

impl Drop for SimIo {
    fn drop(&mut self) {
        if let Ok(mut p) = self.0.try_borrow_mut() {
            p.dropped = true;
        }
    }
}

impl AsyncRead for SimIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.borrow_mut();
        p.read_polls += 1;
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let have = p.input.len();
        if have == 0 {
            match p.end {
                End::Open => {
                    p.read_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                e => {
                    if p.end_reported {
                        p.reads_after_end += 1;
                    }
                    p.end_reported = true;
                    return Poll::Ready(match e {
                        End::Fail(k) => Err(io::Error::new(k, "mock")),
                        _ => Ok(()),
                    });
                }
            }
        }
        let want = buf.remaining();
        let mut f = p.on_read.take();
        drop(p);
        let ans = match &mut f {
            Some(f) => f(want, have),
            None => ReadAns::Give(usize::MAX),
        };
        let mut p = self.0.borrow_mut();
        p.on_read = f;
        match ans {
            ReadAns::Pending => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            ReadAns::Intr => Poll::Ready(Err(io::ErrorKind::Interrupted.into())),
            ReadAns::Fail(k) => Poll::Ready(Err(io::Error::new(k, "mock"))),
            ReadAns::Give(n) => {
                let n = n.min(have).min(want).max(1);
                for b in p.input.drain(..n) {
                    buf.put_slice(&[b]);
                }
                p.consumed += n;
                Poll::Ready(Ok(()))
            }
        }
    }
}

impl AsyncWrite for SimIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.borrow_mut();
        p.write_polls += 1;
        let mut f = p.on_write.take();
        drop(p);
        let ans = match &mut f {
            Some(f) => f(b.len()),
            None => WriteAns::Take(usize::MAX),
        };
        let mut p = self.0.borrow_mut();
        p.on_write = f;
        match ans {
            WriteAns::Wait => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            WriteAns::Block => {
                p.write_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            WriteAns::Fail(k) => {
                if k == io::ErrorKind::Interrupted {
                    p.write_intr = true;
                } else {
                    p.write_failed = true;
                }
                Poll::Ready(Err(io::Error::new(k, "mock")))
            }
            WriteAns::Zero => {
                if !b.is_empty() {
                    p.write_failed = true;
                }
                Poll::Ready(Ok(0))
            }
            WriteAns::Take(n) => {
                let n = n.min(b.len());
                p.out.extend_from_slice(&b[..n]);
                Poll::Ready(Ok(n))
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.borrow_mut();
        let mut f = p.on_flush.take();
        drop(p);
        let ans = match &mut f {
            Some(f) => f(),
            None => FlushAns::Ok,
        };
        let mut p = self.0.borrow_mut();
        p.on_flush = f;
        match ans {
            FlushAns::Ok => {
                p.flushed = p.out.len();
                Poll::Ready(Ok(()))
            }
            FlushAns::Wait => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            FlushAns::Block => {
                p.write_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            FlushAns::Fail(k) => {
                p.write_failed = true;
                Poll::Ready(Err(io::Error::new(k, "mock")))
            }
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.borrow_mut().shutdowns += 1;
        Poll::Ready(Ok(()))
    }
}
