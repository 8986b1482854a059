EV='src/events/event.rs'; MOD='src/ipc/mod.rs'; CTX='src/ipc/context.rs'; BLD='src/ipc/builder.rs'; SRV='src/ipc/server.rs'
RES='src/ipc/stream_emitter/emit_metadata_with_response.rs'; STR='src/ipc/stream_emitter/emit_metadata_with_response_stream.rs'
EMI='src/ipc/stream_emitter/emit_metadata.rs'; SE='src/ipc/stream_emitter/mod.rs'; PAY='src/events/payload.rs'; HAN='src/events/event_handler.rs'
GEN='src/events/mod.rs'; CRY='src/protocol/encrypted/crypt_handling.rs'; IO='src/protocol/encrypted/io_impl.rs'; ENC='src/protocol/encrypted/mod.rs'
ERR='src/events/error_event.rs'; SER='src/events/payload_serializer/'; CLI='src/ipc/client.rs'; TCP='src/protocol/tcp.rs'

bug('c01-ref-zero','C01','a reference to the event id 0','a reference id of 0 is not encoded: the decoded event refers to nothing',
 [(EV,'if let Some(ref_id) = self.ref_id {\n            buf.put_u8(0xFF);','if let Some(ref_id) = self.ref_id.filter(|id| *id != 0) {\n            buf.put_u8(0xFF);')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    for r in [1, 0, u64::MAX] {
        let b = Event::response(None, "a".into(), vec![1u8].into(), r).into_bytes().unwrap();
        let e = Event::from_async_read(&mut &b[..]).await.unwrap();
        assert_eq!(e.reference_id(), Some(r));
    }
}
''')
bug('c02-flag','C02','any event with a reference id, compared with the specified bytes','the flag byte before the reference id is 1 instead of 0xff; the decoder accepts both, so that both ends of this version still agree',
 [(EV,'buf.put_u8(0xFF);','buf.put_u8(0x01);'),(EV,'0xFF => Some(','0x01 | 0xFF => Some(')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    let e = Event::response(Some("n".into()), "a".into(), vec![1u8].into(), 7);
    let f = frame(e.id(), RESPONSE, Some(7), "n", "a", &[1]);
    assert_eq!(f.bytes(), e.into_bytes().unwrap().to_vec());
}
''')
bug('c04-minor','C04','a frame with a newer minor version','events of a newer minor version are refused although minor versions are compatible',
 [(EV,'if version[0] != FORMAT_VERSION[0] {','if version[..2] > FORMAT_VERSION[..2] || version[0] < FORMAT_VERSION[0] {')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    for v in [[0, 8, 1], [0, 9, 3], [0, 10, 0]] {
        let mut f = frame(5, INITIATOR, None, "", "a", &[1]);
        f.version = v;
        assert_eq!(Event::from_async_read(&mut &f.bytes()[..]).await.unwrap().id(), 5);
    }
}
''')
bug('c07-race','C07','two threads that create events at the same time','the counter of the event ids is read and written in two steps: two threads can get the same id',
 [(GEN,'| COUNTER.fetch_add(1, Ordering::SeqCst)','| {\n            let count = COUNTER.load(Ordering::SeqCst);\n            COUNTER.store(count.wrapping_add(1), Ordering::SeqCst);\n            count\n        }')],
'''
use bromine::event::Event;
fn main() {
    let mut ids = Vec::new();
    for _ in 0..20 {
        let ts: Vec<_> = (0..4)
            .map(|_| std::thread::spawn(|| (0..20000).map(|_| Event::initiator(None, String::new(), Default::default()).id()).collect::<Vec<_>>()))
            .collect();
        for t in ts {
            ids.extend(t.join().unwrap());
        }
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    assert_eq!(ids.len(), n);
}
''')
bug('c07-clock','C07','a clock that is set back between events','the counter restarts when the second changes: after the clock was set back ids repeat',
 [(GEN,'static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));','static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));\n        static ref SECOND: AtomicU64 = AtomicU64::new(0);'),
  (GEN,'.duration_since(UNIX_EPOCH).unwrap();','.duration_since(UNIX_EPOCH).unwrap();\n    if SECOND.swap(epoch_elapsed.as_secs(), Ordering::SeqCst) != epoch_elapsed.as_secs() {\n        // keep the counter small\n        COUNTER.store(0, Ordering::SeqCst);\n    }')],
'''
use bromine::event::Event;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static NOW: AtomicI64 = AtomicI64::new(1000);
#[repr(C)]
pub struct Timespec(i64, i64);
#[no_mangle]
pub extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 {
    unsafe { *t = Timespec(NOW.load(SeqCst), 0) };
    0
}
fn main() {
    let mut ids = Vec::new();
    for t in [1000, 1001, 1000, 1001, 1002] {
        NOW.store(t, SeqCst);
        for _ in 0..3 {
            ids.push(Event::initiator(None, String::new(), Default::default()).id());
        }
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    assert_eq!(ids.len(), n);
}
''')
bug('c08-low32','C08','an event whose reference id equals that of a pending request in the lower half only','the registry of the pending requests is keyed by the counter part of the id only: an event that refers to another id completes the request',
 [(CTX,'self.reply_listeners.insert(event_id, rx);','self.reply_listeners.insert(event_id, rx);\n        self.reply_listeners.alias(event_id);') ] if False else
 [(CTX,'self.reply_listeners.get(&ref_id).map(|e| e.value().clone())','self.reply_listeners\n            .iter()\n            // the upper half is only a timestamp\n            .find(|e| *e.key() as u32 == ref_id as u32)\n            .map(|e| e.value().clone())')],
'''
#[tokio::main]
async fn main() {
    let seen = Arc::new(Mutex::new(0));
    let s = seen.clone();
    let (ctx, mut peer) = client(|b| b.on("other", move |_, _| { let s = s.clone(); Box::pin(async move { *s.lock().unwrap() += 1; Ok(Response::empty()) }) }), "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).await_reply().await });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    peer.write_all(&frame(1, RESPONSE, Some(f.id ^ (1 << 40)), "", "other", &[1]).bytes()).await.unwrap();
    sleep(Duration::from_millis(100)).await;
    peer.write_all(&frame(2, RESPONSE, Some(f.id), "", "mine", &[2]).bytes()).await.unwrap();
    let e = timeout(Duration::from_secs(2), h).await.unwrap().unwrap().unwrap();
    assert_eq!(e.id(), 2);
    assert_eq!(*seen.lock().unwrap(), 1);
}
''')
bug('c09-late','C09','a reply that arrives while the request is still being flushed','the listener for replies is registered only after the request was sent: an early reply is lost',
 [(RES,'let (mut tx, _guard) = ctx.register_reply_listener(event_id).await?;\n                emit_metadata.await?;','emit_metadata.await?;\n                let (mut tx, _guard) = ctx.register_reply_listener(event_id).await?;')],
'''
#[tokio::main]
async fn main() {
    SLOW_FLUSH.store(100, std::sync::atomic::Ordering::SeqCst);
    let (ctx, mut peer) = client(|b| b, "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).await_reply().await });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    peer.write_all(&frame(2, END, Some(f.id), "", "end", &[2]).bytes()).await.unwrap();
    let e = timeout(Duration::from_secs(2), h).await.unwrap().unwrap().unwrap();
    assert_eq!(e.id(), 2);
}
''')
bug('c11-cap','C11','a request whose own timeout is longer than the default, answered in between','the own timeout of a request is capped by the default: it times out early',
 [(RES,'.unwrap_or(ctx.default_reply_timeout);','.map_or(ctx.default_reply_timeout, |t| t.min(ctx.default_reply_timeout));')],
'''
#[tokio::main]
async fn main() {
    let (ctx, mut peer) = client(|b| b.timeout(Duration::from_millis(100)), "a").await;
    let h = tokio::spawn(async move { ctx.emit("q", bytes(&[])).await_reply().with_timeout(Duration::from_secs(5)).await });
    let f = next_frame(&mut peer, 2000).await.unwrap();
    sleep(Duration::from_millis(400)).await;
    peer.write_all(&frame(2, END, Some(f.id), "", "end", &[2]).bytes()).await.unwrap();
    assert_eq!(h.await.unwrap().unwrap().id(), 2);
}
''')
bug('c12-case','C12','an event whose name differs from a registered one in case only','names are compared without case: an event without a handler runs the handler of another name',
 [(HAN,'if let Some(cb) = self.callbacks.get(event.name()) {','let callback = self\n            .callbacks\n            .get(event.name())\n            .or_else(|| self.callbacks.get(&event.name().to_lowercase()));\n        if let Some(cb) = callback {')],
'''
#[tokio::main]
async fn main() {
    let seen = Arc::new(Mutex::new(Vec::new()));
    let s = seen.clone();
    let (_ctx, mut peer) = client(|b| b.on("ping", move |_, e| { let s = s.clone(); Box::pin(async move { s.lock().unwrap().push(e.name().to_string()); Ok(Response::empty()) }) }), "a").await;
    for n in ["ping", "Ping", "PING", "pong"] {
        peer.write_all(&frame(2, INITIATOR, None, "", n, &[2]).bytes()).await.unwrap();
        next_frame(&mut peer, 2000).await.unwrap();
    }
    assert_eq!(*seen.lock().unwrap(), vec!["ping".to_string()]);
}
''')
bug('c13-dangling-ref','C13','a handled event that itself refers to another event','what a handler emits and its final event refer to the event the handled one refers to',
 [(MOD,'ctx.set_ref_id(Some(event.id()));','ctx.set_ref_id(event.reference_id().or_else(|| Some(event.id())));')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b.on("ping", move |c, _| Box::pin(async move { c.emit("pong", bytes(&[])).await?; Ok(Response::empty()) })), "a").await;
    for (id, r) in [(2, None), (3, Some(77))] {
        peer.write_all(&frame(id, RESPONSE, r, "", "ping", &[2]).bytes()).await.unwrap();
        assert_eq!(next_frame(&mut peer, 2000).await.unwrap().reference, Some(id));
        assert_eq!(next_frame(&mut peer, 2000).await.unwrap().reference, Some(id));
    }
}
''')
bug('c13-ns-initiator','C13','a handler that emits to a namespace','events that a handler emits to a namespace are initiators instead of responses',
 [(SE,'Some(namespace.as_ref().to_string()),\n            event.as_ref(),\n            payload,\n            Some(event_id),\n            EventType::Response,','Some(namespace.as_ref().to_string()),\n            event.as_ref(),\n            payload,\n            Some(event_id),\n            EventType::Initiator,')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b.on("ping", move |c, _| Box::pin(async move { c.emit_to("n", "pong", bytes(&[])).await?; Ok(Response::empty()) })), "a").await;
    peer.write_all(&frame(2, INITIATOR, None, "", "ping", &[2]).bytes()).await.unwrap();
    let f = next_frame(&mut peer, 2000).await.unwrap();
    assert_eq!((f.ty, f.reference), (RESPONSE, Some(2)));
}
''')
bug('c14-chunks','C14','two concurrent emits with payloads of more than 4 KiB, and a transport that takes less at a time','the lock on the stream is taken for every 4 KiB of an event: large concurrent events interleave',
 [(EMI,'let mut stream = stream.lock().await;\n                stream.write(&event_bytes[..]).await?;','for chunk in event_bytes.chunks(4096) {\n                    let mut stream = stream.lock().await;\n                    stream.write(chunk).await?;\n                }')],
'''
#[tokio::main]
async fn main() {
    CAPACITY.store(100, std::sync::atomic::Ordering::SeqCst);
    let (ctx, mut peer) = client(|b| b, "a").await;
    for i in 0..4u8 {
        let c = ctx.clone();
        tokio::spawn(async move { c.emit("q", bytes(&[i; 9000])).await.unwrap() });
    }
    for _ in 0..4 {
        let f = next_frame(&mut peer, 2000).await.unwrap();
        assert_eq!(f.data, vec![f.data[0]; 9000]);
    }
}
''')
bug('c15-resync','C15','a malformed frame followed by a valid one','after a malformed frame the connection goes on with whatever follows instead of ending',
 [(MOD,'    tracing::debug!("Connection closed.");','')] if False else
 [(EV,'let event_type = EventType::try_from(event_type_num).map_err(|_| Error::CorruptedEvent)?;','let event_type = EventType::try_from(event_type_num).unwrap_or(EventType::Response);')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b, "a").await;
    let mut f = frame(2, INITIATOR, None, "", "ping", &[2]);
    peer.write_all(&f.bytes()).await.unwrap();
    next_frame(&mut peer, 2000).await.unwrap();
    f.ty = 9;
    peer.write_all(&f.bytes()).await.unwrap();
    f.ty = 0;
    peer.write_all(&f.bytes()).await.ok();
    assert_eq!(next_frame(&mut peer, 300).await, None);
}
''')
bug('c16-encode','C16','an event that cannot be encoded (a name of 65536 bytes)','an emit that cannot be encoded reports success without sending anything',
 [(EMI,'let event_bytes = event.into_bytes()?;','let event_bytes = event.into_bytes().unwrap_or_default();')],
'''
#[tokio::main]
async fn main() {
    let (ctx, _peer) = client(|b| b, "a").await;
    assert!(ctx.emit("x".repeat(70000), bytes(&[])).await.is_err());
}
''')
