LIVE='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
'''
bug('c29-handles','C29','a server that accepts many connections','the server keeps the handle of the task of every connection it ever had',
 [(SRV,'        while let Ok((stream','        let mut connections = Vec::new();\n        while let Ok((stream'),
  (SRV,'            tokio::spawn(async move {\n                let (read_half','            connections.push(tokio::spawn(async move {\n                let (read_half'),
  (SRV,'handle_connection::<L::Stream>(namespaces, handler, read_half, ctx).await;\n            });','handle_connection::<L::Stream>(namespaces, handler, read_half, ctx).await;\n            }));')],
LIVE+'''
#[tokio::main]
async fn main() {
    serve(builder("a"));
    let mut live = Vec::new();
    for k in 0..6000 {
        drop(dial("a").await);
        if k % 50 == 0 {
            sleep(Duration::from_millis(2)).await;
        }
        if k == 1000 || k == 5999 {
            sleep(Duration::from_millis(300)).await;
            live.push(LIVE.load(SeqCst));
        }
    }
    assert!(live[1] < live[0] + 60000, "{:?}", live);
}
''')
bug('c29-watch','C29','a client that is left by its peer and then dropped','the task that waits for a client to be stopped keeps its context, and with it the connection',
 [(CLI,'        tokio::spawn(async move {\n            let _ = rx.await;','        let watched = Context::clone(&ctx);\n        tokio::spawn(async move {\n            let _watched = rx.await.map(|_| watched);')],
'''
#[tokio::main]
async fn main() {
    let (ctx, peer) = client(|b| b, "a").await;
    let (mut r, mut w) = tokio::io::split(peer);
    w.shutdown().await.unwrap();
    sleep(Duration::from_millis(200)).await;
    drop(ctx);
    let mut b = [0u8; 1];
    let n = timeout(Duration::from_secs(3), r.read(&mut b)).await.expect("the connection is not closed");
    assert!(matches!(n, Ok(0) | Err(_)));
}
''')
bug('c29-cache','C29','a peer that sends events to ever new namespaces','every namespace a peer ever named is remembered for the connection',
 [(MOD,'    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {','    let mut handlers: HashMap<String, Arc<EventHandler>> = HashMap::new();\n    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {'),
  (MOD,'            handle_event(Context::clone(&ctx), handler, event);\n        } else {','            let handler = handlers.entry(name.clone()).or_insert(handler);\n            handle_event(Context::clone(&ctx), Arc::clone(handler), event);\n        } else {')],
LIVE+'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(|b| b, "a").await;
    let mut live = Vec::new();
    for k in 0..3000u64 {
        peer.write_all(&frame(k, INITIATOR, None, &format!("namespace {}", k), "x", &[]).bytes()).await.unwrap();
        next_frame(&mut peer, 1000).await;
        if k == 500 || k == 2999 {
            sleep(Duration::from_millis(100)).await;
            live.push(LIVE.load(SeqCst));
        }
    }
    assert!(live[1] < live[0] + 40000, "{:?}", live);
}
''')
