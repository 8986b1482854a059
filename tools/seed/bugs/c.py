bug('c03-lossy','C03','a frame whose name or namespace is not UTF-8','names that are not UTF-8 are repaired instead of being refused',
 [(EV,'String::from_utf8(string_buf).map_err(|_| Error::CorruptedEvent)','Ok(String::from_utf8_lossy(&string_buf).into_owned())')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    let mut f = frame(1, INITIATOR, None, "ns", "name", &[1]);
    f.name = b"na\\xffme".to_vec();
    assert!(Event::from_async_read(&mut &f.bytes()[..]).await.is_err());
}
''')
bug('c01-same-name','C01','an event whose namespace equals its name','a namespace that equals the name of the event is left out',
 [(EV,'if let Some(namespace) = self.namespace {','let name = &self.name;\n        if let Some(namespace) = self.namespace.filter(|n| n != name) {')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    let e = Event::initiator(Some("chat".into()), "chat".into(), vec![1].into());
    let b = e.into_bytes().unwrap();
    let e = Event::from_async_read(&mut &b[..]).await.unwrap();
    assert_eq!(e.namespace().as_deref(), Some("chat"));
}
''')
bug('c05-partial','C05','a header that arrives in two pieces','the header is read with a single read: what has not arrived yet is taken as zeros and the rest of the stream is out of step',
 [(EV,'reader.read_exact(&mut header_bytes).await?;','reader.read(&mut header_bytes).await?;')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    let (mut a, mut b) = duplex(1 << 16);
    let f = frame(77, INITIATOR, None, "ns", "name", &[1]).bytes();
    a.write_all(&f[..20]).await.unwrap();
    let h = tokio::spawn(async move { Event::from_async_read(&mut b).await });
    sleep(Duration::from_millis(200)).await;
    a.write_all(&f[20..]).await.unwrap();
    let e = h.await.unwrap().unwrap();
    assert_eq!((e.id(), e.name()), (77, "name"));
}
''')
bug('c04-extra','C04','a header with many additional fields','headers with more than 64 bytes after the known fields are refused',
 [(EV,'''        let name = Self::read_name(reader)?;

''','''        let name = Self::read_name(reader)?;
        // what is left belongs to newer versions
        let mut rest = Vec::new();
        reader.read_to_end(&mut rest)?;
        if rest.len() > 64 {
            return Err(Error::CorruptedEvent);
        }

''')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    let f = frame(77, INITIATOR, None, "ns", "name", &[9; 5]);
    let mut h = f.bytes()[10..].to_vec();
    h.truncate(h.len() - 5);
    h.extend([3; 100]);
    let b = with_header(&h, &[9; 5]);
    let e = Event::from_async_read(&mut &b[..]).await.unwrap();
    assert_eq!((e.id(), e.data_raw()), (77, &[9u8; 5][..]));
}
''')
bug('c08-initiator-reply','C08','a reply of type Initiator','events of type Initiator are never taken as replies although they refer to a pending request',
 [(MOD,'if let Some(ref_id) = event.reference_id() {','if let Some(ref_id) = event.reference_id().filter(|_| event.event_type() != EventType::Initiator) {')],
'''
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).await_reply().with_timeout(Duration::from_secs(3)).await });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    peer.write_all(&frame(5, INITIATOR, Some(f.id), "", "r", &[2]).bytes()).await.unwrap();
    assert_eq!(h.await.unwrap().unwrap().id(), 5);
}
''')
bug('c08-error-name','C08','an error reply with a name of its own','error replies are recognised by their name as well as their type: others are taken as ordinary replies',
 [(RES,'if reply.event_type() == EventType::Error {','if reply.event_type() == EventType::Error && reply.name() == crate::error_event::ERROR_EVENT_NAME {')],
'''
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).await_reply().with_timeout(Duration::from_secs(3)).await });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    peer.write_all(&frame(5, ERROR, Some(f.id), "", "refused", &[0, 7, 0, 0, 0, 1, b'x']).bytes()).await.unwrap();
    match h.await.unwrap() {
        Err(IPCError::ErrorEvent(e)) => assert_eq!((e.code, &e.message[..]), (7, "x")),
        _ => panic!("no error"),
    }
}
''')
bug('c09-stream-late','C09','a first reply that arrives while the request of a stream is still being flushed','the listener for a stream of replies is registered only after the request was sent: early replies are lost',
 [(STR,'let (tx, guard) = ctx.register_reply_listener(event_id).await?;\n                emit_metadata.await?;','emit_metadata.await?;\n                let (tx, guard) = ctx.register_reply_listener(event_id).await?;')],
'''
use futures::StreamExt;
#[tokio::main]
async fn main() {
    SLOW_FLUSH.store(300, std::sync::atomic::Ordering::SeqCst);
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).stream_replies().with_timeout(Duration::from_secs(2)).await.unwrap() });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    peer.write_all(&frame(5, RESPONSE, Some(f.id), "", "r", &[2]).bytes()).await.unwrap();
    let mut s = h.await.unwrap();
    assert_eq!(s.next().await.unwrap().unwrap().id(), 5);
}
''')
bug('c10-initiator','C10','an event of type Initiator among the replies of a stream','a stream of replies ends at an event of type Initiator as well',
 [(STR,'if event.event_type() != EventType::End {','if event.event_type() != EventType::End && event.event_type() != EventType::Initiator {')],
'''
use futures::StreamExt;
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).stream_replies().with_timeout(Duration::from_secs(2)).await.unwrap() });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    let mut s = h.await.unwrap();
    peer.write_all(&frame(5, INITIATOR, Some(f.id), "", "r", &[2]).bytes()).await.unwrap();
    peer.write_all(&frame(6, END, Some(f.id), "", "end", &[]).bytes()).await.unwrap();
    assert_eq!(s.next().await.unwrap().unwrap().id(), 5);
    assert_eq!(s.next().await.unwrap().unwrap().id(), 6);
    assert!(s.next().await.is_none());
}
''')
bug('c12-fallback','C12','a handler whose name is `*` and an event without a handler','a handler registered for `*` gets every event nobody registered for',
 [(MOD,'use crate::prelude::*;','use crate::prelude::*;')] if False else
 [(HAN,'''        if let Some(cb) = self.callbacks.get(event.name()) {''','''        if let Some(cb) = self
            .callbacks
            .get(event.name())
            .or_else(|| self.callbacks.get("*"))
        {''')],
'''
use bromine::prelude::*;
#[tokio::main]
async fn main() {
    static RAN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let (_ctx, mut peer) = client(|b| b.on("*", callback!(_ctx, _event, async move { RAN.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Ok(Response::empty()) })), "a").await;
    peer.write_all(&frame(5, INITIATOR, None, "", "other", &[]).bytes()).await.unwrap();
    next_frame(&mut peer, 1000).await;
    assert_eq!(RAN.load(std::sync::atomic::Ordering::SeqCst), 0);
}
''')
bug('c13-timeout-code','C13','a handler that fails with a timeout of its own','a handler that timed out is answered with the code 408',
 [(MOD,'''                        ErrorEventData {
                            message: format!("{:?}", e),
                            code: 500,''','''                        ErrorEventData {
                            message: format!("{:?}", e),
                            code: match &e {
                                crate::error::Error::Timeout => 408,
                                _ => 500,
                            },''')],
'''
use bromine::error_event::ErrorEventData;
use bromine::payload::FromPayload;
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b.on("q", callback!(_ctx, _event, async move { Err(IPCError::Timeout) })), "a").await;
    peer.write_all(&frame(5, INITIATOR, None, "", "q", &[]).bytes()).await.unwrap();
    let f = next_frame(&mut peer, 2000).await.unwrap();
    assert_eq!((f.ty, f.reference), (ERROR, Some(5)));
    assert_eq!(ErrorEventData::from_payload(&f.data[..]).unwrap().code, 500);
}
''')
bug('c15-version','C15','a frame of another major version followed by a valid one','frames of another major version are skipped without reading them to their end',
 [(MOD,'tracing::debug!("Connection closed.");','tracing::debug!("Connection closed or out of step.");'),
  (MOD,'''    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {''','''    loop {
        let mut event = match Event::from_async_read(&mut read_half).await {
            Ok(event) => event,
            Err(crate::error::Error::UnsupportedVersion(version)) => {
                tracing::warn!("ignored an event of version {}", version);
                continue;
            }
            Err(_) => break,
        };''')] ,
'''
use bromine::prelude::*;
#[tokio::main]
async fn main() {
    static RAN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let (_ctx, mut peer) = client(|b| b.on("q", callback!(_ctx, _event, async move { RAN.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Ok(Response::empty()) })), "a").await;
    let mut f = frame(4, INITIATOR, None, "", "x", &[]);
    f.version = [7, 0, 0];
    peer.write_all(&f.bytes()).await.unwrap();
    peer.write_all(&frame(5, INITIATOR, None, "", "q", &[]).bytes()).await.unwrap();
    next_frame(&mut peer, 1000).await;
    assert_eq!(RAN.load(std::sync::atomic::Ordering::SeqCst), 0);
}
''')
bug('c24-race','C24','two threads that acquire from a pool at the same time','the number of users of a connection is read and written in two steps: users are lost and the pool prefers busy connections',
 [(CTX,'let count = self.count.fetch_add(1, Ordering::Relaxed);','let count = self.count.load(Ordering::Relaxed);\n        self.count.store(count + 1, Ordering::Relaxed);')],
'''
use bromine::payload::BytePayload;
#[tokio::main(flavor = "multi_thread", worker_threads = 4)]
async fn main() {
    let mut l = listen("a");
    let pool = builder("a").build_pooled_client(2).await.unwrap();
    let mut peers = vec![l.recv().await.unwrap(), l.recv().await.unwrap()];
    // the first connection has a guard that is cloned and dropped by many threads, the second none
    let base = pool.acquire();
    let t: Vec<_> = (0..4).map(|_| { let g = base.clone(); std::thread::spawn(move || for _ in 0..200000 { drop(g.clone()); }) }).collect();
    for t in t { t.join().unwrap(); }
    // exactly one guard of the first connection is left: the next is of the second
    let next = pool.acquire();
    next.emit("x", BytePayload::new(vec![])).await.unwrap();
    assert!(next_frame(&mut peers[1], 1000).await.is_some());
    // and then one each
    let third = pool.acquire();
    third.emit("y", BytePayload::new(vec![])).await.unwrap();
    let fourth = pool.acquire();
    fourth.emit("z", BytePayload::new(vec![])).await.unwrap();
    assert!(next_frame(&mut peers[0], 1000).await.is_some());
    assert!(next_frame(&mut peers[1], 1000).await.is_some());
}
''')
bug('c25-pool-handlers','C25','events sent by the peer on a later connection of a pool','only the first connection of a pool has the namespaces that were registered',
 [(BLD,'namespaces: self.namespaces.clone(),','namespaces: if contexts.is_empty() {\n                    self.namespaces.clone()\n                } else {\n                    HashMap::new()\n                },')],
'''
#[tokio::main]
async fn main() {
    let mut l = listen("a");
    let b = builder("a").namespace("n").on("q", callback!(ctx, _event, async move { ctx.response(BytePayload::new(vec![7])) })).build();
    let _pool = b.build_pooled_client(2).await.unwrap();
    for _ in 0..2 {
        let mut p = l.recv().await.unwrap();
        p.write_all(&frame(5, INITIATOR, None, "n", "q", &[]).bytes()).await.unwrap();
        assert_eq!(next_frame(&mut p, 2000).await.unwrap().data, [7]);
    }
}
''')
bug('c26-busy','C26','a client stopped from one of its handlers','a handler cannot stop the client: stopping is ignored for contexts that handle an event',
 [(CTX,'if let Some(sender) = mem::take(&mut *sender) {','if self.ref_id.is_some() {\n            return Ok(());\n        }\n        if let Some(sender) = mem::take(&mut *sender) {')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b.on("stop", callback!(ctx, _event, async move { ctx.clone().stop().await?; Ok(Response::empty()) })).on("q", callback!(_ctx, _event, async move { Ok(Response::empty()) })), "a").await;
    peer.write_all(&frame(5, INITIATOR, None, "", "stop", &[]).bytes()).await.unwrap();
    next_frame(&mut peer, 500).await;
    sleep(Duration::from_millis(300)).await;
    peer.write_all(&frame(6, INITIATOR, None, "", "q", &[]).bytes()).await.ok();
    assert!(next_frame(&mut peer, 1000).await.is_none());
}
''')
bug('c20-client-trust','C20','a client that knows some peers and a server that is none of them','a client that knows any peer at all accepts every server',
 [(CRY,'''        if !keys.allow_unknown && !keys.known_peers.contains(&other_pub) {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        let shared_secret = keys.secret.diffie_hellman(&other_pub);
        let mut stream = Self::new(inner, shared_secret);
        let mut key_buf''','''        if !keys.allow_unknown && keys.known_peers.is_empty() {
            return Err(IPCError::UnknownPeer(other_pub));
        }
        let shared_secret = keys.secret.diffie_hellman(&other_pub);
        let mut stream = Self::new(inner, shared_secret);
        let mut key_buf''')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let (a, b) = duplex(1 << 16);
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[3], false));
    let (_s, c) = tokio::join!(
        EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1),
        EncryptedStream::from_client_key_exchange(MemStream::new(b), &k2)
    );
    assert!(matches!(c, Err(IPCError::UnknownPeer(_))));
}
''', 'encryption_layer')
bug('c19-restart','C19','more than 256 packages in one direction under one key','the nonce of sent packages restarts after 256 packages',
 [(CRY,'let count = self.en_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count)','let count = self.en_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count & 0xff)'),
  (CRY,'let count = self.de_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count)','let count = self.de_count.fetch_add(1, Ordering::SeqCst);\n        nonce_from_number(count & 0xff)')],
ENCKIT+'''
#[tokio::main]
async fn main() {
    let (a, mut b) = duplex(1 << 20);
    let (k1, k2) = (keys(1, &[2], false), keys(2, &[1], false));
    let forward = async {
        let (x, mut y) = duplex(1 << 20);
        let client = EncryptedStream::from_client_key_exchange(MemStream::new(x), &k2);
        let pump = async {
            let mut buf = [0u8; 32];
            y.read_exact(&mut buf).await.unwrap();
            b.write_all(&buf).await.unwrap();
            let mut buf = [0u8; 32 + 4 + 48];
            b.read_exact(&mut buf).await.unwrap();
            y.write_all(&buf).await.unwrap();
        };
        let (c, _) = tokio::join!(client, pump);
        c.unwrap();
    };
    let (s, _) = tokio::join!(EncryptedStream::from_server_key_exchange(MemStream::new(a), &k1), forward);
    let mut s = s.unwrap();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..300 {
        s.write_all(b"same words as ever").await.unwrap();
        s.flush().await.unwrap();
        let mut p = [0u8; 4 + 18 + 16];
        b.read_exact(&mut p).await.unwrap();
        assert!(seen.insert(p), "a package repeats");
    }
}
''', 'encryption_layer')
