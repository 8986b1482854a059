//! Sockets as records: which calls were made with what, for the transport adapters.
//! Bytes travel through an in-memory queue per direction.
use crate::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
use std::cell::UnsafeCell;
use std::io;
use std::net::{SocketAddr, ToSocketAddrs as _};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// What a harness sees of, and decides about, one socket.
#[derive(Default)]
pub struct Log {
    pub ttl: Option<u32>,
    pub nodelay: Option<bool>,
    pub ready_waited: bool,
    pub written: Vec<u8>,
    pub readable: Vec<u8>,
    pub shut: bool,
    pub eof: bool,
    pub waker: Option<Waker>,
}
pub struct Sock(UnsafeCell<Log>);
unsafe impl Send for Sock {}
unsafe impl Sync for Sock {}
impl Sock {
    #[allow(clippy::mut_from_ref)]
    pub fn log(&self) -> &mut Log {
        unsafe { &mut *self.0.get() }
    }
}
fn sock() -> Arc<Sock> {
    Arc::new(Sock(UnsafeCell::new(Log::default())))
}

/// The environment: sockets created so far, and what the next call returns.
#[derive(Default)]
pub struct Env {
    pub tcp_bound: Vec<(SocketAddr, Arc<Sock>)>,
    pub tcp_connected: Vec<(SocketAddr, Arc<Sock>)>,
    pub unix_bound: Vec<(PathBuf, Arc<Sock>)>,
    pub unix_connected: Vec<(PathBuf, Arc<Sock>)>,
    pub accepted: Vec<Arc<Sock>>,
    /// Connections waiting in the (single) listener's queue; `Err` is an accept error.
    pub backlog: Vec<Result<(), ()>>,
    pub refuse: bool,
    pub fail_ttl: bool,
    /// Waiting for readiness fails.
    pub fail_ready: bool,
    pub accept_waker: Option<Waker>,
}
struct G(UnsafeCell<Option<Env>>);
unsafe impl Sync for G {}
static ENV: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn env() -> &'static mut Env {
    unsafe { (*ENV.0.get()).get_or_insert_with(Env::default) }
}
fn not_ready() -> io::Result<()> {
    if env().fail_ready {
        Err(io::ErrorKind::NotConnected.into())
    } else {
        Ok(())
    }
}
fn refuse() -> io::Result<()> {
    if env().refuse {
        Err(io::ErrorKind::ConnectionRefused.into())
    } else {
        Ok(())
    }
}
fn poll_accept(cx: &mut Context<'_>) -> Poll<io::Result<Arc<Sock>>> {
    if env().backlog.is_empty() {
        env().accept_waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    match env().backlog.remove(0) {
        Ok(()) => {
            let s = sock();
            env().accepted.push(s.clone());
            Poll::Ready(Ok(s))
        }
        Err(()) => Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into())),
    }
}

fn do_read(s: &Sock, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let l = s.log();
    if l.readable.is_empty() {
        if l.eof || buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        l.waker = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let n = std::cmp::min(buf.remaining(), l.readable.len());
    let rest = l.readable.split_off(n);
    let now = std::mem::replace(&mut l.readable, rest);
    buf.put_slice(&now);
    Poll::Ready(Ok(()))
}
fn do_write(s: &Sock, buf: &[u8]) -> Poll<io::Result<usize>> {
    s.log().written.extend_from_slice(buf);
    Poll::Ready(Ok(buf.len()))
}

macro_rules! reader {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &mut ReadBuf<'_>,
            ) -> Poll<io::Result<()>> {
                do_read(&self.0, cx, buf)
            }
        }
    };
}
macro_rules! writer {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(
                self: Pin<&mut Self>,
                _: &mut Context<'_>,
                buf: &[u8],
            ) -> Poll<io::Result<usize>> {
                do_write(&self.0, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.0.log().shut = true;
                Poll::Ready(Ok(()))
            }
        }
    };
}
macro_rules! stream {
    ($stream:ident, $r:path, $w:path) => {
        #[derive(Clone)]
        pub struct $stream(pub(crate) Arc<Sock>);
        reader!($stream);
        writer!($stream);
        impl std::fmt::Debug for $stream {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($stream))
            }
        }
        impl $stream {
            pub fn into_split(self) -> ($r, $w) {
                ($r(self.0.clone()), $w(self.0))
            }
            pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                self.0.log().ready_waited = true;
                not_ready()?;
                Ok(Ready::of(i))
            }
            pub async fn readable(&self) -> io::Result<()> {
                self.0.log().ready_waited = true;
                not_ready()
            }
            pub async fn writable(&self) -> io::Result<()> {
                self.0.log().ready_waited = true;
                not_ready()
            }
            pub fn model(&self) -> Arc<Sock> {
                self.0.clone()
            }
        }
    };
}

pub trait ToAddr {
    fn addr(&self) -> io::Result<SocketAddr>;
}
impl ToAddr for SocketAddr {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(*self)
    }
}
impl ToAddr for &SocketAddr {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok(**self)
    }
}
impl ToAddr for (std::net::IpAddr, u16) {
    fn addr(&self) -> io::Result<SocketAddr> {
        Ok((*self).into())
    }
}
impl ToAddr for &str {
    fn addr(&self) -> io::Result<SocketAddr> {
        self.to_socket_addrs()?.next().ok_or(io::ErrorKind::InvalidInput.into())
    }
}

fn set_ttl(s: &Sock, ttl: u32) -> io::Result<()> {
    if env().fail_ttl {
        return Err(io::ErrorKind::InvalidInput.into());
    }
    s.log().ttl = Some(ttl);
    Ok(())
}

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(crate) Arc<Sock>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(crate) Arc<Sock>);
    reader!(OwnedReadHalf);
    writer!(OwnedWriteHalf);
    pub use super::ReuniteError;
}
impl std::fmt::Debug for Sock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sock")
    }
}
#[derive(Debug)]
pub struct ReuniteError(());
stream!(TcpStream, tcp::OwnedReadHalf, tcp::OwnedWriteHalf);
impl TcpStream {
    pub async fn connect<A: ToAddr>(a: A) -> io::Result<TcpStream> {
        refuse()?;
        let s = sock();
        env().tcp_connected.push((a.addr()?, s.clone()));
        Ok(TcpStream(s))
    }
    pub fn set_ttl(&self, ttl: u32) -> io::Result<()> {
        set_ttl(&self.0, ttl)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(self.0.log().ttl.unwrap_or(64))
    }
    pub fn set_nodelay(&self, on: bool) -> io::Result<()> {
        self.0.log().nodelay = Some(on);
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 1)))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 2)))
    }
}

#[derive(Debug)]
pub struct TcpListener(Arc<Sock>);
impl TcpListener {
    pub async fn bind<A: ToAddr>(a: A) -> io::Result<TcpListener> {
        refuse()?;
        let s = sock();
        env().tcp_bound.push((a.addr()?, s.clone()));
        Ok(TcpListener(s))
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let s = std::future::poll_fn(poll_accept).await?;
        Ok((TcpStream(s), SocketAddr::from(([127, 0, 0, 1], 9))))
    }
    pub fn set_ttl(&self, ttl: u32) -> io::Result<()> {
        set_ttl(&self.0, ttl)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(self.0.log().ttl.unwrap_or(64))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 1)))
    }
}

pub mod unix {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(crate) Arc<Sock>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(crate) Arc<Sock>);
    reader!(OwnedReadHalf);
    writer!(OwnedWriteHalf);
    #[derive(Debug, Clone)]
    pub struct SocketAddr(pub(crate) ());
    impl SocketAddr {
        pub fn is_unnamed(&self) -> bool {
            true
        }
        pub fn as_pathname(&self) -> Option<&Path> {
            None
        }
    }
}
stream!(UnixStream, unix::OwnedReadHalf, unix::OwnedWriteHalf);
impl UnixStream {
    pub async fn connect<P: AsRef<Path>>(p: P) -> io::Result<UnixStream> {
        refuse()?;
        let s = sock();
        env().unix_connected.push((p.as_ref().to_path_buf(), s.clone()));
        Ok(UnixStream(s))
    }
}
#[derive(Debug)]
pub struct UnixListener(Arc<Sock>);
impl UnixListener {
    pub fn bind<P: AsRef<Path>>(p: P) -> io::Result<UnixListener> {
        refuse()?;
        let s = sock();
        env().unix_bound.push((p.as_ref().to_path_buf(), s.clone()));
        Ok(UnixListener(s))
    }
    pub async fn accept(&self) -> io::Result<(UnixStream, unix::SocketAddr)> {
        let s = std::future::poll_fn(poll_accept).await?;
        Ok((UnixStream(s), unix::SocketAddr(())))
    }
}
