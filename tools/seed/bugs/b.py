ENCKIT = '''
use bromine::prelude::encrypted::*;
use x25519_dalek::{PublicKey, StaticSecret};
fn keys(own: u8, known: &[u8], allow: bool) -> Keys {
    Keys { secret: StaticSecret::from([own; 32]), known_peers: known.iter().map(|k| PublicKey::from(&StaticSecret::from([*k; 32]))).collect(), allow_unknown: allow }
}
async fn pair(cap: usize) -> (EncryptedStream<MemStream>, EncryptedStream<MemStream>) {
    let (a, b) = duplex(cap);
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[1], false));
    let (s, c) = tokio::join!(
        EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1),
        EncryptedStream::from_client_key_exchange(MemStream::new(b), &k2)
    );
    (s.unwrap(), c.unwrap())
}
'''
bug('c17-nonce-wrap','C17','more than 256 packages in one direction, in one direction only','the receiver counts packages in 8 bits: after 256 packages nothing can be read any more',
 [(CRY,'let count = self.de_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count)','let count = self.de_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count as u8 as u64)')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let (mut s, mut c) = pair(1 << 20).await;
    for i in 0..600u32 {
        s.write_all(&i.to_be_bytes()).await.unwrap();
        s.flush().await.unwrap();
        assert_eq!(c.read_u32().await.unwrap(), i);
    }
}
''', 'encryption_layer')
bug('c18-retry','C18','an attacker who sends a package twice','a package that does not decrypt is tried with the previous nonce as well: a repeated package is accepted again',
 [(CRY,'''        self.cipher
            .decrypt(&self.de_nonce(), &data[..])
            .map(Bytes::from)''','''        let nonce = self.de_nonce();
        self.cipher
            .decrypt(&nonce, &data[..])
            .or_else(|e| {
                // the counter may be ahead
                let count = self.de_count.fetch_sub(1, Ordering::SeqCst) - 1;
                if count == 0 {
                    return Err(e);
                }
                self.cipher.decrypt(&nonce_from_number(count - 1), &data[..])
            })
            .map(Bytes::from)''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    // server - attacker - client
    let (a, mut x) = duplex(1 << 20);
    let (mut y, b) = duplex(1 << 20);
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[1], false));
    let forward = async {
        let mut buf = [0u8; 32];
        y.read_exact(&mut buf).await.unwrap();
        x.write_all(&buf).await.unwrap();
        let mut buf = [0u8; 32 + 4 + 48];
        x.read_exact(&mut buf).await.unwrap();
        y.write_all(&buf).await.unwrap();
    };
    let (s, c, _) = tokio::join!(
        EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1),
        EncryptedStream::from_client_key_exchange(MemStream::new(b), &k2),
        forward
    );
    let (mut s, mut c) = (s.unwrap(), c.unwrap());
    s.write_all(b"pay!").await.unwrap();
    s.flush().await.unwrap();
    let mut p = [0u8; 24];
    x.read_exact(&mut p).await.unwrap();
    y.write_all(&p).await.unwrap();
    y.write_all(&p).await.unwrap();
    let mut buf = [0u8; 4];
    c.read_exact(&mut buf).await.unwrap();
    assert!(timeout(Duration::from_secs(1), c.read_exact(&mut buf)).await.unwrap().is_err());
}
''', 'encryption_layer')
bug('c19-fail','C19','a write that the transport fails in the middle of a package, followed by another one','the nonce advances only when a package was written completely: after a failed write it is used again for other data',
 [(CRY,'''            .encrypt(&self.en_nonce(), &data[..])''','''            .encrypt(&nonce_from_number(self.en_count.load(Ordering::SeqCst)), &data[..])'''),
  (CRY,'''    fn en_nonce(&self) -> Nonce {
        let count = self.en_count.fetch_add(1, Ordering::SeqCst);
        nonce_from_number(count)
    }''','''    /// Moves on to the next nonce
    pub fn advance(&self) {
        self.en_count.fetch_add(1, Ordering::SeqCst);
    }'''),
  (IO,'''        return (Err(e), writer, cipher);
    }

    (Ok(()), writer, cipher)''','''        return (Err(e), writer, cipher);
    }
    cipher.advance();

    (Ok(()), writer, cipher)''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    FAIL_AFTER.store(4 + 48 + 20 + 1, std::sync::atomic::Ordering::SeqCst);
    let (a, mut b) = duplex(1 << 20);
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[1], false));
    // the raw bytes of the server after the exchange are compared: same plaintext, same key, must differ
    let forward = async {
        let (x, mut y) = duplex(1 << 20);
        let client = EncryptedStream::from_client_key_exchange(MemStream::new(x), &k2);
        let pump = async {
            let mut buf = [0u8; 32];
            y.read_exact(&mut buf).await.unwrap();
            b.write_all(&buf).await.unwrap();
            let mut buf = [0u8; 32 + 4 + 48];
            b.read_exact(&mut buf).await.unwrap();
            y.write_all(&buf).await.unwrap();
        };
        let (c, _) = tokio::join!(client, pump);
        c.unwrap();
    };
    let (s, _) = tokio::join!(EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1), forward);
    let mut s = s.unwrap();
    s.write_all(b"0123456789abcdef").await.unwrap();
    assert!(s.flush().await.is_err());
    s.write_all(b"0123456789abcdef").await.unwrap();
    s.flush().await.ok();
    drop(s);
    let mut all = Vec::new();
    b.read_to_end(&mut all).await.unwrap();
    assert!(all.len() > 40, "{}", all.len());
    assert_ne!(all[4..20], all[24..40], "key stream repeats");
}
''', 'encryption_layer')
bug('c20-prefix','C20','a peer whose key begins like a known one','known keys are compared in their first 16 bytes only',
 [(CRY,'''        let other_pub = receive_public_key(&mut inner).await?;

        if !keys.allow_unknown && !keys.known_peers.contains(&other_pub) {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        send_public_key''','''        let other_pub = receive_public_key(&mut inner).await?;
        let known = keys
            .known_peers
            .iter()
            .any(|k| k.as_bytes().starts_with(&other_pub.as_bytes()[..16]));

        if !keys.allow_unknown && !known {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        send_public_key''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    for at in 0..33 {
        let (a, mut b) = duplex(1 << 20);
        let mut key = *PublicKey::from(&StaticSecret::from([2; 32])).as_bytes();
        if at < 32 {
            key[at] ^= 1;
        }
        b.write_all(&key).await.unwrap();
        let r = EncryptedStream::from_server_key_exchange(MemStream::new(a), &keys(1, &[3, 2], false)).await;
        assert_eq!(r.is_ok(), at == 32, "{}", at);
    }
}
''', 'encryption_layer')
bug('c20-empty','C20','a client that knows no peer','a client without known peers accepts any server',
 [(CRY,'''        let other_pub = receive_public_key(&mut inner).await?;

        if !keys.allow_unknown && !keys.known_peers.contains(&other_pub) {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        let shared''','''        let other_pub = receive_public_key(&mut inner).await?;
        let restricted = !keys.allow_unknown && !keys.known_peers.is_empty();

        if restricted && !keys.known_peers.contains(&other_pub) {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        let shared''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    for known in [vec![], vec![3]] {
        let (a, b) = duplex(1 << 20);
        let (k1, k2) = (keys(1, &[], true), keys(2, &known, false));
        let (_, c) = tokio::join!(
            EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1),
            EncryptedStream::from_client_key_exchange(MemStream::new(b), &k2)
        );
        assert!(matches!(c, Err(IPCError::UnknownPeer(_))));
    }
}
''', 'encryption_layer')
bug('c21-zero','C21','a client that presents a key of zeros','a key of 32 zero bytes panics in the accept loop and ends the server',
 [(CRY,'''    stream.read_exact(&mut pk_buf).await?;

    Ok(PublicKey::from(pk_buf))''','''    stream.read_exact(&mut pk_buf).await?;
    debug_assert_ne!(pk_buf, [0u8; 32], "not a public key");

    Ok(PublicKey::from(pk_buf))''')],
ENCKIT+'''
fn main() {
    let rt = tokio::runtime::Runtime::new().unwrap();
    rt.block_on(run());
}
async fn run() {
    let b = IPCBuilder::<EncryptedListener<Mem>>::new()
        .address("s".to_string())
        .server_options(EncryptionOptions { keys: keys(1, &[2], false), inner_options: () });
    tokio::spawn(async move { b.build_server().await.unwrap() });
    let mut p = dial("s").await;
    p.write_all(&[0; 32]).await.unwrap();
    sleep(Duration::from_millis(200)).await;
    drop(p);
    let ctx = timeout(Duration::from_secs(2), IPCBuilder::<EncryptedListener<Mem>>::new()
        .address("s".to_string())
        .client_options(EncryptionOptions { keys: keys(2, &[1], false), inner_options: () })
        .build_client()).await.unwrap().unwrap();
    ctx.emit("a", bytes(&[])).await_reply().with_timeout(Duration::from_secs(2)).await.unwrap();
}
''', 'encryption_layer')
bug('c22-large','C22','a raw payload of more than 64 KiB','raw payloads are read up to 64 KiB only',
 [(PAY,'''        let mut buf = Vec::new();
        reader.read_to_end(&mut buf)?;

        Ok(Self::new(buf))''','''        let mut buf = Vec::new();
        // guard against endless readers
        reader.take(u16::MAX as u64 + 1).read_to_end(&mut buf)?;

        Ok(Self::new(buf))'''),(PAY,'fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {\n        let mut buf = Vec::new();','fn from_payload<R: Read>(reader: R) -> IPCResult<Self> {\n        let mut buf = Vec::new();')],
'''
fn main() {
    for n in [0usize, 1, 65535, 65536, 65537, 200000] {
        let v = vec![7u8; n];
        assert_eq!(BytePayload::from_payload(&v[..]).unwrap().into_inner().len(), n);
    }
}
''')
bug('c22-code','C22','an error payload with a code of 32768 or more','the code of an error is read as a signed number and negative codes become 0',
 [(ERR,'let code = reader.read_u16::<BigEndian>()?;','let code = reader.read_i16::<BigEndian>()?.max(0) as u16;')],
'''
use bromine::error_event::ErrorEventData;
fn main() {
    for code in [0u16, 1, 500, 32767, 32768, 65535] {
        let mut b = code.to_be_bytes().to_vec();
        b.extend([0, 0, 0, 1, b'x']);
        assert_eq!(ErrorEventData::from_payload(&b[..]).unwrap().code, code);
    }
}
''')
bug('c23-swap','C23','a payload of this version compared with the documented format ids','the ids of postcard and JSON are exchanged on both sides',
 [(SER+'mod.rs','    Bincode,\n    Postcard,\n    Json,\n}','    Bincode,\n    Json,\n    Postcard,\n}'),
  (SER+'mod.rs','2 => Ok(Self::Postcard),','3 => Ok(Self::Postcard),'),(SER+'mod.rs','3 => Ok(Self::Json),','2 => Ok(Self::Json),')],
'''
use bromine::payload::{DynamicSerializer, SerdePayload, TryIntoBytes};
fn main() {
    for (i, f) in [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json].into_iter().enumerate() {
        let b = SerdePayload::new(f, 5u8).try_into_bytes().unwrap();
        assert_eq!(b[0] as usize, i);
        assert_eq!(SerdePayload::<u8>::from_payload(&b[..]).unwrap().data(), 5);
    }
}
''','serialize_rmp serialize_bincode serialize_postcard serialize_json')
bug('c24-clone','C24','a guard that is cloned and dropped','clones of a guard are not counted when made but when dropped: the pool prefers busy connections',
 [(CTX,'''    fn clone(&self) -> Self {
        self.acquire();

        Self {''','''    fn clone(&self) -> Self {
        Self {'''),
  (CTX,'''        self.contexts
            .iter()
            .min_by_key(|c| c.count())
            .unwrap()
            .clone()''','''        let context = self
            .contexts
            .iter()
            .min_by_key(|c| c.count())
            .unwrap()
            .clone();
        context.acquire();

        context''')],
'''
#[tokio::main]
async fn main() {
    let mut l = listen("a");
    let pool = builder("a").build_pooled_client(2).await.unwrap();
    let mut p = [l.recv().await.unwrap(), l.recv().await.unwrap()];
    let g = pool.acquire();
    drop(g.clone());
    let h = pool.acquire();
    g.emit("g", bytes(&[])).await.unwrap();
    h.emit("h", bytes(&[])).await.unwrap();
    // the two are on different connections
    let [p0, p1] = &mut p;
    assert!(next_frame(p0, 500).await.is_some());
    assert!(next_frame(p1, 500).await.is_some());
}
''')
bug('c25-pool-options','C25','a pooled client of more than one connection with options','only the first connection of a pool is opened with the configured options',
 [(BLD,'''            let ctx = client
                .connect::<L::Stream>(address.clone(), self.stream_options.clone())
                .await?;
            contexts.push(ctx);''','''            let ctx = client
                .connect::<L::Stream>(address.clone(), std::mem::take(&mut self.stream_options))
                .await?;
            contexts.push(ctx);'''),
  (BLD,'pub async fn build_pooled_client(self, pool_size','pub async fn build_pooled_client(mut self, pool_size')],
'''
use bromine::protocol::tcp::TcpOptions;
use std::net::SocketAddr;
use tokio::net::TcpListener;
#[tokio::main]
async fn main() {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a: SocketAddr = l.local_addr().unwrap();
    // a time-to-live of 0 is refused by the operating system: every connection has to try to set it
    let r = IPCBuilder::<TcpListener>::new().address(a).client_options(TcpOptions { ttl: Some(0) }).build_pooled_client(1).await;
    assert!(r.is_err());
    // with a valid one, all connections have it
    let pool = IPCBuilder::<TcpListener>::new().address(a).client_options(TcpOptions { ttl: Some(17) }).build_pooled_client(3).await.unwrap();
    let mut n = 0;
    for fd in std::fs::read_dir("/proc/self/fd").unwrap() {
        let fd: i32 = fd.unwrap().file_name().to_str().unwrap().parse().unwrap();
        let (mut v, mut len) = (0i32, 4u32);
        if unsafe { getsockopt(fd, 0, 2, &mut v, &mut len) } == 0 && v == 17 {
            n += 1;
        }
    }
    drop(pool);
    assert_eq!(n, 3);
}
extern "C" {
    fn getsockopt(fd: i32, level: i32, name: i32, value: *mut i32, len: *mut u32) -> i32;
}
''')
bug('c26-handler','C26','a client stopped from one of its handlers','the context that handlers get cannot stop the client',
 [(CLI,'let ctx = Context::clone(&ctx);','let ctx = Context::clone(&ctx).detached();'),
  (CTX,'''    /// Stops the listener and closes the connection
    #[tracing''','''    /// Returns the context for handlers that isn't able to keep the connection open
    pub(crate) fn detached(mut self) -> Self {
        let sender = self.stop_sender;
        self.stop_sender = Arc::new(Mutex::new(None));
        std::mem::forget(sender);

        self
    }

    /// Stops the listener and closes the connection
    #[tracing''')],
'''
#[tokio::main]
async fn main() {
    let seen = Arc::new(Mutex::new(0));
    let s = seen.clone();
    let (_ctx, mut peer) = client(|b| b
        .on("n", move |_, _| { let s = s.clone(); Box::pin(async move { *s.lock().unwrap() += 1; Ok(Response::empty()) }) })
        .on("stop", |c, _| Box::pin(async move { c.clone().stop().await?; Ok(Response::empty()) })), "a").await;
    for n in ["n", "stop", "n", "n"] {
        peer.write_all(&frame(2, INITIATOR, None, "", n, &[2]).bytes()).await.ok();
        sleep(Duration::from_millis(100)).await;
    }
    assert_eq!(*seen.lock().unwrap(), 1);
}
''')
bug('c27-ttl','C27','a time-to-live the operating system refuses','a failure to set the time-to-live of a listener is ignored',
 [(TCP,'listener.set_ttl(ttl)?;','let _ = listener.set_ttl(ttl);')],
'''
use bromine::protocol::tcp::TcpOptions;
use bromine::protocol::AsyncStreamProtocolListener;
use tokio::net::TcpListener;
#[tokio::main]
async fn main() {
    assert!(<TcpListener as AsyncStreamProtocolListener>::protocol_bind("127.0.0.1:0".parse().unwrap(), TcpOptions { ttl: Some(0) }).await.is_err());
}
''')
bug('c28-flush','C28','a flush when nothing is buffered, over a transport that buffers itself','a flush without buffered data does not flush the transport: what an earlier write handed on stays there',
 [(IO,'''                if let Err(e) = writer.flush().await {''','''                if let Err(e) = if buffered { writer.flush().await } else { Ok(()) } {'''),
  (IO,'''                let (mut writer, cipher) = if plaintext.len() > 0 {''','''                let buffered = plaintext.len() > 0;
                let (mut writer, cipher) = if buffered {''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    use std::sync::atomic::Ordering::SeqCst;
    let (mut s, _c) = pair(1 << 20).await;
    let n = FLUSHES.load(SeqCst);
    s.write_all(&[0; 2000]).await.unwrap();
    s.flush().await.unwrap();
    assert!(FLUSHES.load(SeqCst) > n);
}
''', 'encryption_layer')
bug('c11-stream-extend','C11','a stream of replies that stops after its first reply','the timeout of a stream is at least two seconds once a reply arrived',
 [(STR,'''                        if event.event_type() != EventType::End {''','''                        // the peer is alive: give it some time
                        self.timeout = self.timeout.max(Duration::from_secs(2));

                        if event.event_type() != EventType::End {''')],
'''
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).stream_replies().with_timeout(Duration::from_millis(500)).await.unwrap() });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    let mut s = h.await.unwrap();
    peer.write_all(&frame(1, RESPONSE, Some(f.id), "", "r", &[2]).bytes()).await.unwrap();
    s.next().await.unwrap().unwrap();
    let r = timeout(Duration::from_millis(1500), s.next()).await;
    assert!(matches!(r, Ok(Some(Err(IPCError::Timeout)))));
}
''')
bug('c10-after-end','C10','events that refer to a finished stream that was not dropped yet','a stream of replies keeps claiming events after its End event until it is dropped',
 [(STR,'            if self.guard.is_none() || self.receiver.is_none() {','            if self.ended || self.guard.is_none() || self.receiver.is_none() {'),
  (STR,'''                        if event.event_type() != EventType::End {
                            self.guard = Some(guard);
                            self.receiver = Some(tx);
                        }''','''                        self.ended = event.event_type() == EventType::End;
                        self.guard = Some(guard);
                        self.receiver = Some(tx);'''),
  (STR,'    timeout: Duration,\n    fut: Option<BoxFuture<\'static, StreamFutureResult>>,','    timeout: Duration,\n    ended: bool,\n    fut: Option<BoxFuture<\'static, StreamFutureResult>>,'),
  (STR,'            timeout,\n            fut: None,\n        }','            timeout,\n            ended: false,\n            fut: None,\n        }')],
'''
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let seen = Arc::new(Mutex::new(0));
    let s = seen.clone();
    let (ctx, mut peer) = client(|b| b.on("other", move |_, _| { let s = s.clone(); Box::pin(async move { *s.lock().unwrap() += 1; Ok(Response::empty()) }) }), "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).stream_replies().await.unwrap() });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    let mut s = h.await.unwrap();
    peer.write_all(&frame(1, END, Some(f.id), "", "end", &[2]).bytes()).await.unwrap();
    assert_eq!(s.next().await.unwrap().unwrap().id(), 1);
    assert!(s.next().await.is_none());
    peer.write_all(&frame(2, RESPONSE, Some(f.id), "", "other", &[2]).bytes()).await.unwrap();
    sleep(Duration::from_millis(200)).await;
    assert_eq!(*seen.lock().unwrap(), 1);
}
''')
