//! An in-memory transport behind bromine's public transport traits.
//!
//! Every way a transport may behave is a choice of the solver: how many bytes a read or write
//! takes, whether it is pending first, where a write fails, where the stream ends.
use bromine::prelude::{IPCError, IPCResult};
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
use std::cell::UnsafeCell;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// How a pipe cuts the byte stream.
#[derive(Clone, Copy, PartialEq)]
pub enum Cut {
    /// Everything that fits.
    Whole,
    /// At most so many bytes at a time.
    Max(usize),
    /// Like `Max`, but pending (and woken) before every transfer.
    Slow(usize),
    /// The solver picks for the next n transfers: all, or any smaller number of bytes up to
    /// 8, or nothing yet.
    Any(usize),
    /// Pieces that end at these offsets of the stream; pending (and woken) between them.
    At([usize; 3]),
}

pub struct Dir {
    pub data: Vec<u8>,
    pub pos: usize,
    pub eof: bool,
    /// Fails once so many bytes were transferred.
    pub fail_at: Option<usize>,
    /// It fails by taking nothing instead of reporting an error.
    pub fail_zero: bool,
    /// What it reports then; an interruption goes away by itself.
    pub fail_kind: io::ErrorKind,
    /// Reading fails once everything was read.
    pub read_fail: Option<io::ErrorKind>,
    /// Flushing and shutting down fail.
    pub flush_fail: bool,
    /// Only shutting down fails.
    pub shut_fail: bool,
    /// Accepts no more than so many unread bytes.
    pub window: usize,
    /// Accepts no more than so many bytes in all.
    pub hold: usize,
    pub rcut: Cut,
    pub wcut: Cut,
    pub flushed: usize,
    pub flush_pending: bool,
    pub shutdown: bool,
    pub reader_gone: bool,
    /// Answers every whole frame that is written at once: where to, and with what.
    pub answer: Option<(Pipe, fn(&crate::spec::Frame) -> crate::spec::Frame)>,
    answered: usize,
    pub writer_gone: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
    slow_r: bool,
    slow_w: bool,
}
impl Dir {
    fn new() -> Dir {
        Dir {
            data: Vec::new(),
            pos: 0,
            eof: false,
            fail_at: None,
            fail_zero: false,
            fail_kind: io::ErrorKind::ConnectionReset,
            read_fail: None,
            flush_fail: false,
            shut_fail: false,
            window: usize::MAX,
            hold: usize::MAX,
            rcut: Cut::Whole,
            wcut: Cut::Whole,
            flushed: 0,
            flush_pending: false,
            shutdown: false,
            reader_gone: false,
            answer: None,
            answered: 0,
            writer_gone: false,
            rwaker: None,
            wwaker: None,
            slow_r: false,
            slow_w: false,
        }
    }
    /// Bytes written and not taken yet.
    pub fn rest(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    /// Appends bytes for the reader, as a peer would.
    pub fn push(&mut self, b: &[u8]) {
        self.data.extend_from_slice(b);
        self.wake_reader();
    }
    pub fn close(&mut self) {
        self.eof = true;
        self.wake_reader();
    }
    /// It ends, or reading it fails in one of several ways.
    pub fn end(&mut self) {
        match sym::choose(5) {
            0 => self.eof = true,
            k => {
                use io::ErrorKind::*;
                self.read_fail = Some([ConnectionReset, TimedOut, BrokenPipe, Other][k - 1]);
            }
        }
        self.wake_reader();
    }
    pub fn wake_reader(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake()
        }
    }
    pub fn wake_writer(&mut self) {
        if let Some(w) = self.wwaker.take() {
            w.wake()
        }
    }
    pub fn open_window(&mut self, n: usize) {
        self.window = n;
        self.wake_writer();
    }
    /// Accepts no more than `n` bytes from now on.
    pub fn hold_after(&mut self, n: usize) {
        self.hold = self.data.len().saturating_add(n);
        self.wake_writer();
    }
    /// Takes everything, as the harness' own peer.
    pub fn drain(&mut self) -> Vec<u8> {
        let v = self.rest().to_vec();
        self.pos = self.data.len();
        self.wake_writer();
        v
    }
    /// Drops what was transferred, if everything was.
    pub fn forget(&mut self) {
        if self.pos == self.data.len() && self.fail_at.is_none() {
            self.data = Vec::new();
            self.pos = 0;
            self.flushed = 0;
            self.answered = 0;
        }
    }
    fn quota(c: &mut Cut, slow: &mut bool, at: usize, avail: usize) -> Option<usize> {
        match *c {
            Cut::Whole => Some(avail),
            Cut::Max(n) => Some(avail.min(n)),
            Cut::Slow(n) => {
                *slow = !*slow;
                if *slow {
                    None
                } else {
                    Some(avail.min(n))
                }
            }
            Cut::At(ref mut l) => {
                let mut n = avail;
                for x in l.iter_mut() {
                    if *x == at {
                        *x = usize::MAX;
                        return None;
                    }
                    if *x > at && *x < at + n {
                        n = *x - at;
                    }
                }
                Some(n)
            }
            Cut::Any(0) => Some(avail),
            Cut::Any(n) => {
                *c = Cut::Any(n - 1);
                let k = sym::choose(1 + avail.min(8));
                if k == 0 {
                    None
                } else if k == avail.min(8) {
                    Some(avail)
                } else {
                    Some(k)
                }
            }
        }
    }
    fn read(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let avail = (self.data.len() - self.pos).min(buf.remaining());
        if avail == 0 {
            if let Some(k) = self.read_fail {
                if buf.remaining() > 0 {
                    return Poll::Ready(Err(k.into()));
                }
            }
            if self.eof || self.writer_gone || buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            self.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match Self::quota(&mut self.rcut, &mut self.slow_r, self.pos, avail) {
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(n) => {
                buf.put_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                self.wake_writer();
                Poll::Ready(Ok(()))
            }
        }
    }
    fn write(&mut self, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.shutdown || self.reader_gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let mut avail = b.len();
        if let Some(f) = self.fail_at {
            if self.data.len() >= f {
                if self.fail_zero {
                    return Poll::Ready(Ok(0));
                }
                if self.fail_kind == io::ErrorKind::Interrupted {
                    self.fail_at = None;
                }
                return Poll::Ready(Err(self.fail_kind.into()));
            }
            avail = avail.min(f - self.data.len());
        }
        avail = avail.min(self.window.saturating_sub(self.data.len() - self.pos));
        avail = avail.min(self.hold.saturating_sub(self.data.len()));
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if avail == 0 {
            self.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match Self::quota(&mut self.wcut, &mut self.slow_w, self.data.len(), avail) {
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(n) => {
                self.data.extend_from_slice(&b[..n]);
                self.wake_reader();
                if let Some((p, f)) = &self.answer {
                    while let crate::spec::Parsed::Frame(x, l) = crate::spec::parse(&self.data[self.answered..]) {
                        self.answered += l;
                        p.d().push(&f(&x).encode());
                    }
                }
                Poll::Ready(Ok(n))
            }
        }
    }
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.flush_pending {
            self.flush_pending = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.reader_gone || self.flush_fail {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        self.flushed = self.data.len();
        Poll::Ready(Ok(()))
    }
    fn shut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.flush_pending {
            self.flush_pending = false;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.flush_fail || self.shut_fail {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        self.shutdown = true;
        self.eof = true;
        self.wake_reader();
        Poll::Ready(Ok(()))
    }
}

struct Cell(UnsafeCell<Dir>);
unsafe impl Send for Cell {}
unsafe impl Sync for Cell {}

/// One direction of a connection.
#[derive(Clone)]
pub struct Pipe(Arc<Cell>);
impl Pipe {
    pub fn new() -> Pipe {
        Pipe(Arc::new(Cell(UnsafeCell::new(Dir::new()))))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn d(&self) -> &mut Dir {
        unsafe { &mut *self.0 .0.get() }
    }
}

pub struct MemRead(pub Pipe);
pub struct MemWrite(pub Pipe);
pub struct MemStream {
    pub r: MemRead,
    pub w: MemWrite,
}
impl Drop for MemRead {
    fn drop(&mut self) {
        self.0.d().reader_gone = true;
        self.0.d().wake_writer();
    }
}
impl Drop for MemWrite {
    fn drop(&mut self) {
        self.0.d().writer_gone = true;
        self.0.d().wake_reader();
    }
}
/// The two ends of a connection.
pub fn pair() -> (MemStream, MemStream) {
    let (a, b) = (Pipe::new(), Pipe::new());
    (
        MemStream { r: MemRead(a.clone()), w: MemWrite(b.clone()) },
        MemStream { r: MemRead(b), w: MemWrite(a) },
    )
}
/// One end, and the pipes into and out of it.
pub fn lone() -> (MemStream, Pipe, Pipe) {
    let (a, b) = (Pipe::new(), Pipe::new());
    (MemStream { r: MemRead(a.clone()), w: MemWrite(b.clone()) }, a, b)
}

impl AsyncRead for MemRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.d().read(cx, b)
    }
}
impl AsyncWrite for MemWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.0.d().write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.d().flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.d().shut(cx)
    }
}
impl AsyncRead for MemStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.r.0.d().read(cx, b)
    }
}
impl AsyncWrite for MemStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.w.0.d().write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.w.0.d().flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.w.0.d().shut(cx)
    }
}
impl AsyncProtocolStreamSplit for MemStream {
    type OwnedSplitReadHalf = MemRead;
    type OwnedSplitWriteHalf = MemWrite;
    fn protocol_into_split(self) -> (MemRead, MemWrite) {
        (self.r, self.w)
    }
}

/// The addresses, options and connections of the in-memory network.
#[derive(Default)]
pub struct Net {
    pub bound: Vec<(u16, Opt)>,
    pub connected: Vec<(u16, Opt)>,
    /// Streams handed to the next `protocol_connect` calls.
    pub to_connect: Vec<MemStream>,
    /// What the next `protocol_accept` calls return; `None` is an error.
    pub to_accept: Vec<Option<MemStream>>,
    pub accepts: usize,
    pub refuse: bool,
    accept_waker: Option<Waker>,
}
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Opt(pub u32);
struct G(UnsafeCell<Option<Net>>);
unsafe impl Sync for G {}
static NET: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn net() -> &'static mut Net {
    unsafe { (*NET.0.get()).get_or_insert_with(Net::default) }
}
/// A connection to be accepted by the server: returns the pipes into and out of it.
pub fn incoming() -> (Pipe, Pipe) {
    let (s, i, o) = lone();
    net().to_accept.push(Some(s));
    if let Some(w) = net().accept_waker.take() {
        w.wake()
    }
    (i, o)
}
/// A connection for the client's next `protocol_connect`.
pub fn outgoing() -> (Pipe, Pipe) {
    let (s, i, o) = lone();
    net().to_connect.push(s);
    (i, o)
}

#[async_trait::async_trait]
impl AsyncProtocolStream for MemStream {
    type AddressType = u16;
    type StreamOptions = Opt;
    async fn protocol_connect(a: u16, o: Opt) -> IPCResult<Self> {
        net().connected.push((a, o));
        if net().to_connect.is_empty() {
            return Err(IPCError::from(io::Error::from(io::ErrorKind::ConnectionRefused)));
        }
        Ok(net().to_connect.remove(0))
    }
}

pub struct MemListener(());
#[async_trait::async_trait]
impl AsyncStreamProtocolListener for MemListener {
    type AddressType = u16;
    type RemoteAddressType = u16;
    type Stream = MemStream;
    type ListenerOptions = Opt;
    async fn protocol_bind(a: u16, o: Opt) -> IPCResult<Self> {
        net().bound.push((a, o));
        if net().refuse {
            return Err(IPCError::from(io::Error::from(io::ErrorKind::AddrInUse)));
        }
        Ok(MemListener(()))
    }
    async fn protocol_accept(&self) -> IPCResult<(MemStream, u16)> {
        let s = std::future::poll_fn(|cx| {
            if net().to_accept.is_empty() {
                net().accept_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(net().to_accept.remove(0))
        })
        .await;
        net().accepts += 1;
        match s {
            Some(s) => Ok((s, net().accepts as u16)),
            None => Err(IPCError::from(io::Error::from(io::ErrorKind::ConnectionAborted))),
        }
    }
}
/// Gives the server this end of a connection.
pub fn give(s: MemStream) {
    net().to_accept.push(Some(s));
    if let Some(w) = net().accept_waker.take() {
        w.wake()
    }
}
