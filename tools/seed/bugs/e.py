bug('c30-permits','C30','160 events whose handlers wait, and one more','at most 128 handlers of a connection run at a time; while they wait nothing more is received, not even what they wait for',
 [(MOD,'    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {','    let permits = Arc::new(tokio::sync::Semaphore::new(128));\n    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {'),
  (MOD,'        if let Some(name) = event.namespace() {','        let permit = Arc::clone(&permits).acquire_owned().await.ok();\n        if let Some(name) = event.namespace() {'),
  (MOD,'            handle_event(Context::clone(&ctx), handler, event);\n        } else {','            handle_event(Context::clone(&ctx), handler, event, permit);\n        } else {'),
  (MOD,'            handle_event(Context::clone(&ctx), Arc::clone(&handler), event);','            handle_event(Context::clone(&ctx), Arc::clone(&handler), event, permit);'),
  (MOD,'fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {','fn handle_event(\n    mut ctx: Context,\n    handler: Arc<EventHandler>,\n    event: Event,\n    permit: Option<tokio::sync::OwnedSemaphorePermit>,\n) {'),
  (MOD,'    tokio::spawn(async move {\n        match handler','    tokio::spawn(async move {\n        let _permit = permit;\n        match handler')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(
        |b| {
            b.on("w", |_, _| Box::pin(async move {
                sleep(Duration::from_secs(1000)).await;
                Ok(Response::empty())
            }))
            .on("q", |_, _| Box::pin(async move { Ok(Response::empty()) }))
        },
        "a",
    )
    .await;
    for k in 0..160u64 {
        peer.write_all(&frame(k, INITIATOR, None, "", "w", &[]).bytes()).await.unwrap();
    }
    peer.write_all(&frame(999, INITIATOR, None, "", "q", &[]).bytes()).await.unwrap();
    let f = timeout(Duration::from_secs(5), next_frame(&mut peer, 5000)).await;
    assert!(f.is_ok() && f.unwrap().is_some(), "an event is held up by others");
}
''')
bug('c30-sync','C30','an emit that the transport does not take while the reply to an earlier request comes in','a reply is delivered only when nothing is being sent, so that a connection that takes no bytes delivers no replies either',
 [(CTX,'        self.reply_listeners.get(&ref_id).map(|e| e.value().clone())','        // the request has been sent completely before its reply is passed on\n        self.emitter.idle().await;\n        self.reply_listeners.get(&ref_id).map(|e| e.value().clone())'),
  ('src/ipc/stream_emitter/mod.rs','impl StreamEmitter {\n','impl StreamEmitter {\n    /// Waits until no event is being sent\n    pub(crate) async fn idle(&self) {\n        drop(self.stream.lock().await);\n    }\n\n')],
'''
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let c = ctx.clone();
    let request = tokio::spawn(async move { c.emit("q", BytePayload::new(vec![])).await_reply().await });
    let f = next_frame(&mut peer, 3000).await.expect("a request is sent");
    let c = ctx.clone();
    tokio::spawn(async move { c.emit("big", BytePayload::new(vec![0; 64 << 20])).await });
    sleep(Duration::from_millis(500)).await;
    peer.write_all(&frame(1, RESPONSE, Some(f.id), "", "r", &[]).bytes()).await.unwrap();
    let r = timeout(Duration::from_secs(5), request).await.expect("a reply is held up by what is being sent");
    assert!(matches!(r, Ok(Ok(_))));
    std::process::exit(0)
}
''')
bug('c30-in-order','C30','a response that nobody waits for, with a handler that asks the other side','handlers of response events run in the receiving task, one after the other, so that the reply they wait for is never received',
 [(MOD,'            handle_event(Context::clone(&ctx), handler, event);\n        } else {','            let in_order = event.event_type() == EventType::Response;\n            let handled = handle_event(Context::clone(&ctx), handler, event);\n            if in_order {\n                // what refers to the same event is handled in the order it was sent\n                let _ = handled.await;\n            }\n        } else {'),
  (MOD,'fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {','fn handle_event(\n    mut ctx: Context,\n    handler: Arc<EventHandler>,\n    event: Event,\n) -> tokio::task::JoinHandle<()> {'),
  (MOD,'                tracing::error!("Failed to handle event: {:?}", e);\n            }\n        }\n    });','                tracing::error!("Failed to handle event: {:?}", e);\n            }\n        }\n    })')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(
        |b| {
            b.namespace("n")
                .on("w", |c, _| Box::pin(async move {
                    let r = c.emit("more", BytePayload::new(vec![])).await_reply().await?;
                    c.response(BytePayload::new(r.data_raw().to_vec()))
                }))
                .build()
        },
        "a",
    )
    .await;
    peer.write_all(&frame(5, RESPONSE, Some(77), "n", "w", &[]).bytes()).await.unwrap();
    let f = next_frame(&mut peer, 3000).await.expect("the handler asks");
    peer.write_all(&frame(6, RESPONSE, Some(f.id), "", "r", &[3]).bytes()).await.unwrap();
    let e = timeout(Duration::from_secs(5), next_frame(&mut peer, 5000)).await;
    assert!(matches!(e, Ok(Some(_))), "the handler never gets its reply");
}
''')
bug('c30-data','C30','a handler that waits and another one that changes the shared data','the shared data is locked for reading while a namespaced handler runs',
 [(MOD,'    tokio::spawn(async move {\n        match handler','    let data = event.namespace().as_ref().map(|_| Arc::clone(&ctx.data));\n\n    tokio::spawn(async move {\n        // the handlers of a namespace see the data unchanged while they run\n        let _data = match &data {\n            Some(data) => Some(data.read().await),\n            None => None,\n        };\n        match handler')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(
        |b| {
            b.on("change", |c, _| Box::pin(async move {
                let _d = c.data.write().await;
                Ok(Response::empty())
            }))
            .namespace("n")
            .on("w", |_, _| Box::pin(async move {
                sleep(Duration::from_secs(1000)).await;
                Ok(Response::empty())
            }))
            .build()
        },
        "a",
    )
    .await;
    peer.write_all(&frame(5, INITIATOR, None, "n", "w", &[]).bytes()).await.unwrap();
    sleep(Duration::from_millis(300)).await;
    peer.write_all(&frame(6, INITIATOR, None, "", "change", &[]).bytes()).await.unwrap();
    let f = timeout(Duration::from_secs(5), next_frame(&mut peer, 5000)).await;
    assert!(matches!(f, Ok(Some(_))), "an event is held up by another handler");
}
''')
ENCKIT31 = ENCKIT + '''
use std::sync::{Arc, Mutex};
/// A server's and a client's stream after the key exchange, and what the server has sent.
async fn encrypted() -> (EncryptedStream<MemStream>, EncryptedStream<MemStream>, Arc<Mutex<Vec<u8>>>) {
    let ((a, x), (y, b)) = (duplex(1 << 20), duplex(1 << 20));
    let wire = Arc::new(Mutex::new(Vec::new()));
    let (mut xr, mut xw) = tokio::io::split(x);
    let (mut yr, mut yw) = tokio::io::split(y);
    let w = wire.clone();
    tokio::spawn(async move {
        let mut buf = vec![0; 4096];
        while let Ok(n @ 1..) = xr.read(&mut buf).await {
            w.lock().unwrap().extend_from_slice(&buf[..n]);
            yw.write_all(&buf[..n]).await.unwrap();
        }
    });
    tokio::spawn(async move { tokio::io::copy(&mut yr, &mut xw).await });
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[1], false));
    let (s, c) = tokio::join!(
        EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1),
        EncryptedStream::from_client_key_exchange(MemStream::new(b), &k2)
    );
    (s.unwrap(), c.unwrap(), wire)
}
'''
bug('c31-bulk','C31','a single write of more than 128 KiB to an encrypted stream','large packages are sent without encryption, marked by the highest bit of their length',
 [(IO,'    let encrypted_bytes = match cipher.encrypt(bytes) {','    // bulk data is not worth the time\n    if bytes.len() > 1 << 17 {\n        let mut package = bytes::BytesMut::with_capacity(4 + bytes.len());\n        package.put_u32(bytes.len() as u32 | 1 << 31);\n        package.put(bytes);\n        let result = writer.write_all(&package).await;\n        return (result, writer, cipher);\n    }\n    let encrypted_bytes = match cipher.encrypt(bytes) {'),
  (IO,'    match cipher.decrypt(package.into_inner()) {','    if package.bulk {\n        return (Ok(package.into_inner()), reader, cipher);\n    }\n    match cipher.decrypt(package.into_inner()) {'),
  ('src/protocol/encrypted/mod.rs','    bytes: Bytes,\n}\n\nimpl EncryptedPackage','    bytes: Bytes,\n    pub(crate) bulk: bool,\n}\n\nimpl EncryptedPackage'),
  ('src/protocol/encrypted/mod.rs','        Self { bytes }','        Self { bytes, bulk: false }'),
  ('src/protocol/encrypted/mod.rs','        let length = reader.read_u32().await?;','        let length = reader.read_u32().await?;\n        let bulk = length >> 31 == 1;\n        let length = length & !(1 << 31);'),
  ('src/protocol/encrypted/mod.rs','            bytes: Bytes::from(bytes_buf),\n','            bytes: Bytes::from(bytes_buf),\n            bulk,\n')],
ENCKIT31+'''
#[tokio::main]
async fn main() {
    let (mut a, mut b, wire) = encrypted().await;
    let text = vec![0x5a; 200000];
    let t = text.clone();
    let w = tokio::spawn(async move {
        a.write_all(&t).await.unwrap();
        a.flush().await.unwrap();
        a
    });
    let mut got = vec![0; text.len()];
    b.read_exact(&mut got).await.unwrap();
    let _a = w.await.unwrap();
    assert_eq!(got, text);
    assert!(!wire.lock().unwrap().windows(64).any(|x| x == [0x5a; 64]), "the text is on the wire");
}
''','encryption_layer')
bug('c31-half','C31','the bytes from the server after the key exchange','both sides change the key for one direction only; the other one stays under the key of the exchange',
 [(CRY,'        stream.update_key(permanent_secret.into());','        stream\n            .read_half\n            .cipher\n            .as_mut()\n            .unwrap()\n            .update_key(permanent_secret.into());'),
  (CRY,'        stream.update_key(key_buf.into());','        stream\n            .write_half\n            .cipher\n            .as_mut()\n            .unwrap()\n            .update_key(key_buf.into());')],
ENCKIT31+'''
#[tokio::main]
async fn main() {
    let (mut a, mut b, wire) = encrypted().await;
    a.write_all(b"hello").await.unwrap();
    a.flush().await.unwrap();
    let mut got = [0; 5];
    b.read_exact(&mut got).await.unwrap();
    assert_eq!(&got, b"hello");
    // the server's bytes: public key, the secret under the first key, and the data
    let w = wire.lock().unwrap()[32 + 4 + 48..].to_vec();
    let shared = StaticSecret::from([1; 32]).diffie_hellman(&PublicKey::from(&StaticSecret::from([2; 32])));
    let (x, mut y) = duplex(1 << 10);
    y.write_all(&w).await.unwrap();
    let mut other = EncryptedStream::new(MemStream::new(x), shared);
    let r = timeout(Duration::from_secs(3), other.read_exact(&mut got)).await;
    assert!(!matches!(r, Ok(Ok(_))), "the data is under the key of the exchange");
}
''','encryption_layer')
