SER_='src/ipc/stream_emitter/emit_metadata_with_response_stream.rs'
bug('c32-waker','C32','a stream of replies that is polled once in one task and then moved into another one','a stream of replies remembers who polled it first and wakes only that task',
 [(SER_,'    fut: Option<BoxFuture<\'static, StreamFutureResult>>,\n}\n\nimpl ResponseStream','    fut: Option<BoxFuture<\'static, StreamFutureResult>>,\n    waker: Option<std::task::Waker>,\n}\n\nimpl ResponseStream'),
  (SER_,'            timeout,\n            fut: None,\n        }\n    }\n}\n\nimpl<P: IntoPayload> Unpin','            timeout,\n            fut: None,\n            waker: None,\n        }\n    }\n}\n\nimpl<P: IntoPayload> Unpin'),
  (SER_,'        match self.fut.as_mut().unwrap().as_mut().poll(cx) {\n            Poll::Ready(r) => match r {','        // the waker is cloned once for all replies\n        let waker = self.waker.get_or_insert_with(|| cx.waker().clone()).clone();\n        let mut cx = std::task::Context::from_waker(&waker);\n\n        match self.fut.as_mut().unwrap().as_mut().poll(&mut cx) {\n            Poll::Ready(r) => match r {')],
'''
use bromine::prelude::*;
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let mut s = ctx.emit("q", BytePayload::new(vec![])).stream_replies().with_timeout(Duration::from_secs(1000)).await.unwrap();
    let f = next_frame(&mut peer, 3000).await.expect("a request is sent");
    assert!(timeout(Duration::from_millis(200), s.next()).await.is_err());
    let reader = tokio::spawn(async move { s.next().await });
    sleep(Duration::from_millis(200)).await;
    peer.write_all(&frame(1, RESPONSE, Some(f.id), "", "r", &[3]).bytes()).await.unwrap();
    let r = timeout(Duration::from_secs(5), reader).await.expect("the reader is not woken").unwrap();
    assert_eq!(r.unwrap().unwrap().data_raw(), &[3]);
}
''')
bug('c32-read','C32','an encrypted stream whose reading is given up (a timeout) and continued in another task','a read of a package in progress wakes the task that began it',
 [('src/protocol/encrypted/mod.rs','    fut: OptionalFuture<(io::Result<Bytes>, T, CipherBox)>,\n    remaining','    fut: Option<PackageFuture<T>>,\n    remaining'),
  ('src/protocol/encrypted/mod.rs','pub struct EncryptedReadStream<T: AsyncRead> {','/// A package that is read, and the task that reads it\ntype PackageFuture<T> = (\n    std::task::Waker,\n    Pin<Box<dyn Future<Output = (io::Result<Bytes>, T, CipherBox)> + Send + Sync>>,\n);\n\npub struct EncryptedReadStream<T: AsyncRead> {'),
  (IO,'                self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));\n            }\n            match self.fut.as_mut().unwrap().as_mut().poll(cx) {','                self.fut = Some((\n                    cx.waker().clone(),\n                    Box::pin(async move { read_bytes(reader, cipher).await }),\n                ));\n            }\n            let (waker, fut) = self.fut.as_mut().unwrap();\n            match fut.as_mut().poll(&mut Context::from_waker(waker)) {')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let (mut s, mut c) = pair(1 << 20).await;
    let mut buf = [0; 5];
    assert!(timeout(Duration::from_millis(200), c.read_exact(&mut buf[..1])).await.is_err());
    let reader = tokio::spawn(async move {
        let mut buf = [0; 5];
        c.read_exact(&mut buf).await.unwrap();
        buf
    });
    sleep(Duration::from_millis(200)).await;
    s.write_all(b"hello").await.unwrap();
    s.flush().await.unwrap();
    let r = timeout(Duration::from_secs(5), reader).await.expect("the reader is not woken").unwrap();
    assert_eq!(&r, b"hello");
}
''','encryption_layer')
bug('c33-repeat','C33','a look at a generated secret','a generated secret is the same 8 random bytes four times: 64 instead of 256 bits',
 [('src/utils.rs','    rng.fill_bytes(&mut secret);','    let seed = rng.next_u64().to_be_bytes();\n    secret\n        .chunks_mut(seed.len())\n        .for_each(|c| c.copy_from_slice(&seed));')],
'''
fn main() {
    for _ in 0..4 {
        let s = bromine::utils::generate_secret().to_bytes();
        let mut chunks: Vec<&[u8]> = s.chunks(4).collect();
        chunks.sort();
        chunks.dedup();
        assert_eq!(chunks.len(), 8, "parts of the secret repeat");
    }
}
''','encryption_layer')
bug('c33-default','C33','a client or server whose encryption options were not configured','default options accept any peer, as there is no key to compare with',
 [('src/protocol/encrypted/mod.rs','                known_peers: Vec::new(),\n                allow_unknown: false,','                known_peers: Vec::new(),\n                // there is nothing to compare the keys of peers with\n                allow_unknown: true,')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let (a, mut b) = duplex(1 << 10);
    let server = keys(1, &[], true);
    let o = EncryptionOptions::<()>::default();
    let (r, _) = tokio::join!(
        timeout(Duration::from_secs(5), EncryptedStream::from_client_key_exchange(MemStream::new(a), &o.keys)),
        async {
            let mut k = [0; 32];
            b.read_exact(&mut k).await.unwrap();
            b.write_all(PublicKey::from(&server.secret).as_bytes()).await.unwrap();
        }
    );
    assert!(matches!(r, Ok(Err(IPCError::UnknownPeer(_)))), "an unknown server is accepted");
}
''','encryption_layer')
bug('c33-time','C33','two connections that are accepted within the same second','the secret of a connection is derived from the time in seconds when the random generator is asked for it, mixed with too few random bytes',
 [(CRY,'    rng.fill_bytes(&mut buf);','    let now = std::time::SystemTime::now()\n        .duration_since(std::time::UNIX_EPOCH)\n        .map(|d| d.as_secs())\n        .unwrap_or_default();\n    buf[..8].copy_from_slice(&now.to_be_bytes());\n    rng.fill_bytes(&mut buf[8..9]);')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let mut seen = std::collections::HashSet::new();
    let known = keys(1, &[2], false);
    let client = PublicKey::from(&StaticSecret::from([2; 32]));
    for _ in 0..400 {
        let (a, mut b) = duplex(1 << 10);
        b.write_all(client.as_bytes()).await.unwrap();
        let _s = EncryptedStream::from_server_key_exchange(MemStream::new(a), &known).await.unwrap();
        let mut x = [0; 32 + 4 + 48];
        b.read_exact(&mut x).await.unwrap();
        // the same secret under the same key looks the same
        assert!(seen.insert(x.to_vec()), "a secret is used for two connections");
    }
}
''','encryption_layer')
