//! An in-memory transport and a raw peer that speaks the documented frame format by itself.
#![allow(dead_code, unused_imports)]
use async_trait::async_trait;
pub use bromine::prelude::*;
use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
pub use bromine::IPCBuilder;
use lazy_static::lazy_static;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
pub use std::sync::{Arc, Mutex};
pub use std::time::Duration;
pub use tokio::io::{duplex, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadHalf, WriteHalf};
pub use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
pub use tokio::time::{sleep, timeout};

lazy_static! {
    static ref LISTENERS: Mutex<HashMap<String, UnboundedSender<DuplexStream>>> = Mutex::new(HashMap::new());
}
/// how many bytes fit into a connection
pub static CAPACITY: AtomicUsize = AtomicUsize::new(1 << 20);

pub struct Mem(tokio::sync::Mutex<UnboundedReceiver<DuplexStream>>);
pub struct MemStream(DuplexStream);

/// a raw peer that accepts connections
pub fn listen(addr: &str) -> UnboundedReceiver<DuplexStream> {
    let (tx, rx) = unbounded_channel();
    LISTENERS.lock().unwrap().insert(addr.to_string(), tx);
    rx
}
/// a raw peer that connects
pub fn try_dial(addr: &str) -> Option<DuplexStream> {
    let (a, b) = duplex(CAPACITY.load(SeqCst));
    LISTENERS.lock().unwrap().get(addr)?.send(b).ok()?;
    Some(a)
}
pub async fn dial(addr: &str) -> DuplexStream {
    for _ in 0..200 {
        if let Some(s) = try_dial(addr) {
            return s;
        }
        sleep(Duration::from_millis(10)).await;
    }
    panic!("nobody listens")
}

#[async_trait]
impl AsyncStreamProtocolListener for Mem {
    type AddressType = String;
    type RemoteAddressType = String;
    type Stream = MemStream;
    type ListenerOptions = ();
    async fn protocol_bind(address: String, _: ()) -> IPCResult<Self> {
        Ok(Mem(tokio::sync::Mutex::new(listen(&address))))
    }
    async fn protocol_accept(&self) -> IPCResult<(MemStream, String)> {
        match self.0.lock().await.recv().await {
            Some(s) => Ok((MemStream(s), "peer".to_string())),
            None => Err(IPCError::from("closed")),
        }
    }
}
#[async_trait]
impl AsyncProtocolStream for MemStream {
    type AddressType = String;
    type StreamOptions = ();
    async fn protocol_connect(address: String, _: ()) -> IPCResult<Self> {
        try_dial(&address).map(MemStream).ok_or_else(|| IPCError::from("refused"))
    }
}
impl MemStream {
    pub fn new(s: DuplexStream) -> Self {
        MemStream(s)
    }
}
impl AsyncRead for MemStream {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::pin::Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl AsyncWrite for MemStream {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        std::pin::Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::pin::Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::pin::Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
impl AsyncProtocolStreamSplit for MemStream {
    type OwnedSplitReadHalf = ReadHalf<DuplexStream>;
    type OwnedSplitWriteHalf = MemWrite;
    fn protocol_into_split(self) -> (Self::OwnedSplitReadHalf, Self::OwnedSplitWriteHalf) {
        let (r, w) = tokio::io::split(self.0);
        (r, MemWrite { inner: w, sleep: None, budget: FAIL_AFTER.load(SeqCst) })
    }
}
/// how long a flush takes, in milliseconds
pub static SLOW_FLUSH: AtomicUsize = AtomicUsize::new(0);
/// after how many bytes a connection fails (0: never)
pub static FAIL_AFTER: AtomicUsize = AtomicUsize::new(0);
/// the number of flushes on all connections
pub static FLUSHES: AtomicUsize = AtomicUsize::new(0);
pub struct MemWrite {
    inner: WriteHalf<DuplexStream>,
    sleep: Option<std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + Sync>>>,
    budget: usize,
}
impl AsyncWrite for MemWrite {
    fn poll_write(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &[u8]) -> std::task::Poll<std::io::Result<usize>> {
        if self.budget == 0 {
            return std::pin::Pin::new(&mut self.inner).poll_write(cx, buf);
        }
        if self.budget == 1 {
            self.budget = FAIL_AFTER.load(SeqCst);
            return std::task::Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        let n = buf.len().min(self.budget - 1);
        let r = std::pin::Pin::new(&mut self.inner).poll_write(cx, &buf[..n]);
        if let std::task::Poll::Ready(Ok(n)) = r {
            self.budget -= n;
        }
        r
    }
    fn poll_flush(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        let ms = SLOW_FLUSH.load(SeqCst) as u64;
        if ms > 0 {
            if self.sleep.is_none() {
                self.sleep = Some(Box::pin(sleep(Duration::from_millis(ms))));
            }
            std::task::ready!(self.sleep.as_mut().unwrap().as_mut().poll(cx));
            self.sleep = None;
        }
        FLUSHES.fetch_add(1, SeqCst);
        std::pin::Pin::new(&mut self.inner).poll_flush(cx)
    }
    fn poll_shutdown(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> {
        std::pin::Pin::new(&mut self.inner).poll_shutdown(cx)
    }
}

pub const INITIATOR: u8 = 0;
pub const RESPONSE: u8 = 1;
pub const END: u8 = 2;
pub const ERROR: u8 = 3;

#[derive(Debug, Clone, PartialEq)]
pub struct Frame {
    pub version: [u8; 3],
    pub id: u64,
    pub ty: u8,
    pub reference: Option<u64>,
    pub namespace: Vec<u8>,
    pub name: Vec<u8>,
    pub data: Vec<u8>,
}
pub fn frame(id: u64, ty: u8, reference: Option<u64>, namespace: &str, name: &str, data: &[u8]) -> Frame {
    Frame { version: [0, 9, 0], id, ty, reference, namespace: namespace.into(), name: name.into(), data: data.to_vec() }
}
impl Frame {
    pub fn bytes(&self) -> Vec<u8> {
        let mut h = self.version.to_vec();
        h.extend(self.id.to_be_bytes());
        h.push(self.ty);
        match self.reference {
            Some(r) => {
                h.push(0xff);
                h.extend(r.to_be_bytes());
            }
            None => h.push(0),
        }
        h.extend((self.namespace.len() as u16).to_be_bytes());
        h.extend(&self.namespace);
        h.extend((self.name.len() as u16).to_be_bytes());
        h.extend(&self.name);
        with_header(&h, &self.data)
    }
    pub fn parse(b: &[u8]) -> Option<Frame> {
        let hl = u16::from_be_bytes(b.get(8..10)?.try_into().unwrap()) as usize;
        let h = b.get(10..10 + hl)?;
        let data = b[10 + hl..].to_vec();
        let mut p = 0;
        let mut take = |n: usize| {
            p += n;
            h.get(p - n..p)
        };
        let version = take(3)?.try_into().unwrap();
        let id = u64::from_be_bytes(take(8)?.try_into().unwrap());
        let ty = take(1)?[0];
        let reference = match take(1)?[0] {
            0 => None,
            0xff => Some(u64::from_be_bytes(take(8)?.try_into().unwrap())),
            _ => return None,
        };
        let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
        let namespace = take(n)?.to_vec();
        let n = u16::from_be_bytes(take(2)?.try_into().unwrap()) as usize;
        let name = take(n)?.to_vec();
        Some(Frame { version, id, ty, reference, namespace, name, data })
    }
}
pub fn with_header(h: &[u8], data: &[u8]) -> Vec<u8> {
    let mut b = ((h.len() + data.len()) as u64).to_be_bytes().to_vec();
    b.extend((h.len() as u16).to_be_bytes());
    b.extend(h);
    b.extend(data);
    b
}
/// the next frame, or None when the stream ends or stays silent for the given time
pub async fn next_frame<R: AsyncRead + Unpin>(r: &mut R, ms: u64) -> Option<Frame> {
    timeout(Duration::from_millis(ms), async {
        let mut b = vec![0u8; 8];
        r.read_exact(&mut b).await.ok()?;
        let n = u64::from_be_bytes(b[..].try_into().unwrap()) as usize;
        assert!(n < 1 << 30, "absurd length {}", n);
        b.resize(10 + n, 0);
        r.read_exact(&mut b[8..]).await.ok()?;
        Some(Frame::parse(&b).expect("not a frame"))
    })
    .await
    .ok()
    .flatten()
}
pub fn builder(addr: &str) -> IPCBuilder<Mem> {
    IPCBuilder::<Mem>::new().address(addr.to_string())
}
pub fn serve(b: IPCBuilder<Mem>) {
    tokio::spawn(async move { b.build_server().await.unwrap() });
}
/// a bromine client and the raw other end of its connection
pub async fn client(b: impl FnOnce(IPCBuilder<Mem>) -> IPCBuilder<Mem>, addr: &str) -> (bromine::context::Context, DuplexStream) {
    let mut l = listen(addr);
    let ctx = b(builder(addr)).build_client().await.unwrap();
    (ctx, l.recv().await.unwrap())
}
pub fn bytes(b: &[u8]) -> BytePayload {
    BytePayload::new(b.to_vec())
}
