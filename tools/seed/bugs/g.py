LATE='''
use futures::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

#[tokio::main(flavor = "multi_thread", worker_threads = 3)]
async fn main() {
    let (ctx, mut peer) = client(|b| b.timeout(Duration::from_millis(200)), "a").await;
    for k in 0..24u64 {
        if k % 2 == 0 {
            let mut q = ctx.emit("q", BytePayload::new(vec![])).await_reply();
            std::future::poll_fn(|cx| {
                let _ = Pin::new(&mut q).poll(cx);
                Poll::Ready(())
            })
            .await;
            let f = next_frame(&mut peer, 3000).await.expect("a request is sent");
            peer.write_all(&frame(k, RESPONSE, Some(f.id), "", "r", &[]).bytes()).await.unwrap();
            // something else keeps whoever waits busy
            std::thread::sleep(Duration::from_millis(260));
            assert!(q.await.is_ok(), "a reply that arrived in time is reported as a timeout");
        } else {
            let mut s = ctx.emit("q", BytePayload::new(vec![])).stream_replies().await.unwrap();
            let f = next_frame(&mut peer, 3000).await.expect("a request is sent");
            std::future::poll_fn(|cx| {
                let _ = Pin::new(&mut s).poll_next(cx);
                Poll::Ready(())
            })
            .await;
            peer.write_all(&frame(k, RESPONSE, Some(f.id), "", "r", &[]).bytes()).await.unwrap();
            std::thread::sleep(Duration::from_millis(260));
            let r = std::future::poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await;
            assert!(matches!(r, Some(Ok(_))), "a reply that arrived in time is reported as a timeout");
        }
    }
}
'''
bug('c09-timer-first','C09','a waiting request or stream that is polled again only after its timeout, although the reply has long been there','whether the timeout has elapsed is looked at before the reply: a reply that arrived in time is lost',
 [(RES,'                let reply = tokio::select! {\n                    // a reply that has arrived counts even if the timeout has elapsed by now\n                    biased;\n                    tx_result = tx.recv() => {\n                        tx_result.ok_or(Error::SendError)\n                    }\n                    _ = tokio::time::sleep(timeout) => {\n                        Err(Error::Timeout)\n                    }\n                }?;',
   '                let reply = tokio::select! {\n                    biased;\n                    _ = tokio::time::sleep(timeout) => {\n                        Err(Error::Timeout)\n                    }\n                    tx_result = tx.recv() => {\n                        tx_result.ok_or(Error::SendError)\n                    }\n                }?;')],
LATE)
bug('c06-cut','C06','a namespace and a name that fit their length fields but together not the one of the header','a name for which the header has no room left is cut instead of being refused',
 [(EV,'        buf.put_u16(Self::string_length(&self.name)?);\n        buf.put(Bytes::from(self.name));','        Self::string_length(&self.name)?;\n        let room = (u16::MAX as usize).saturating_sub(buf.len() + 2);\n        let name = Bytes::from(self.name);\n        let name = name.slice(..name.len().min(room));\n        buf.put_u16(name.len() as u16);\n        buf.put(name);')],
'''
use bromine::event::Event;
#[tokio::main]
async fn main() {
    for n in [10, 30000, 60000] {
        let name = "x".repeat(n);
        match Event::initiator(Some("n".repeat(30000)), name.clone(), vec![1u8].into()).into_bytes() {
            Ok(b) => assert_eq!(Event::from_async_read(&mut &b[..]).await.unwrap().name(), name),
            Err(_) => assert!(n > 35000),
        }
    }
}
''')
bug('c24-idle','C24','a pool with one connection in use and another idle','a connection with a single user counts as idle: the pool hands it out again',
 [(CTX,'.min_by_key(|c| c.count())','.min_by_key(|c| c.count().saturating_sub(1))')],
'''
#[tokio::main]
async fn main() {
    let mut l = listen("a");
    let pool = builder("a").build_pooled_client(2).await.unwrap();
    let mut peers = vec![l.recv().await.unwrap(), l.recv().await.unwrap()];
    let (a, b) = (pool.acquire(), pool.acquire());
    a.emit("x", bytes(&[1])).await.unwrap();
    b.emit("x", bytes(&[2])).await.unwrap();
    for p in &mut peers {
        assert!(next_frame(p, 1000).await.is_some(), "two users share a connection while another is idle");
    }
}
''')
bug('c12-first','C12','a namespace that is registered twice','the first registration of a namespace wins instead of the latest one',
 [(BLD,'        self.namespaces\n            .insert(namespace.name().to_owned(), namespace);','        self.namespaces\n            .entry(namespace.name().to_owned())\n            .or_insert(namespace);')],
'''
#[tokio::main]
async fn main() {
    let (_ctx, mut peer) = client(
        |b| {
            b.namespace("n")
                .on("a", |c, _| Box::pin(async move { c.response(BytePayload::new(vec![1])) }))
                .build()
                .namespace("n")
                .on("a", |c, _| Box::pin(async move { c.response(BytePayload::new(vec![2])) }))
                .build()
        },
        "a",
    )
    .await;
    peer.write_all(&frame(5, INITIATOR, None, "n", "a", &[]).bytes()).await.unwrap();
    assert_eq!(next_frame(&mut peer, 2000).await.unwrap().data, [2]);
}
''')
bug('c08-shared','C08','a server with two clients, one of which answers what the server asked the other','the connections of a server share one table of pending requests: a client can answer the requests to another one',
 [(SRV,'        while let Ok((stream, remote_address)) = listener','        let reply_listeners = ReplyListeners::default();\n\n        while let Ok((stream, remote_address)) = listener'),
  (SRV,'            let timeout = self.timeout;\n','            let timeout = self.timeout;\n            let reply_listeners = Arc::clone(&reply_listeners);\n'),
  (SRV,'                let reply_listeners = ReplyListeners::default();\n\n','')],
'''
#[tokio::main]
async fn main() {
    serve(builder("a").on("w", |c, _| Box::pin(async move {
        let r = c.emit("more", BytePayload::new(vec![])).await_reply().with_timeout(Duration::from_secs(1)).await?;
        c.response(BytePayload::new(r.data_raw().to_vec()))
    })));
    let (mut x, mut y) = (dial("a").await, dial("a").await);
    x.write_all(&frame(5, INITIATOR, None, "", "w", &[]).bytes()).await.unwrap();
    let f = next_frame(&mut x, 2000).await.expect("the handler asks");
    y.write_all(&frame(6, RESPONSE, Some(f.id), "", "r", &[66]).bytes()).await.unwrap();
    let f = next_frame(&mut x, 4000).await.expect("the handler ends");
    assert_ne!(f.data, [66], "another connection answered the request");
}
''')
bug('c22-lossy','C22','error data whose message is not UTF-8','a message that is not UTF-8 is repaired instead of being refused',
 [(ERR,'String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;','match String::from_utf8(message_buf) {\n            Ok(m) => m,\n            Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),\n        };'),(ERR,'use crate::prelude::{IPCError, IPCResult};','use crate::prelude::IPCResult;')],
'''
use bromine::error_event::ErrorEventData;
use bromine::payload::FromPayload;
fn main() {
    assert!(ErrorEventData::from_payload(&[0u8, 5, 0, 0, 0, 2, b'o', b'k'][..]).is_ok());
    assert!(ErrorEventData::from_payload(&[0u8, 5, 0, 0, 0, 2, b'o', 0xc3][..]).is_err(), "bytes that are no message are accepted");
}
''')
bug('c11-zero','C11','a request with a timeout of zero of its own','a timeout of zero means none was given: the default applies',
 [(RES,'                .take()\n                .unwrap_or(ctx.default_reply_timeout);','                .take()\n                .filter(|t| !t.is_zero())\n                .unwrap_or(ctx.default_reply_timeout);')],
'''
#[tokio::main]
async fn main() {
    let (ctx, _peer) = client(|b| b, "a").await;
    let q = ctx.emit("q", BytePayload::new(vec![])).await_reply().with_timeout(Duration::ZERO);
    let r = timeout(Duration::from_secs(3), q).await.expect("the request does not time out");
    assert!(matches!(r, Err(IPCError::Timeout)));
}
''')
bug('c25-pool-timeout','C25','a pool with more than one connection and a configured timeout','the connections of a pool share the configured timeout between them',
 [(BLD,'                reply_listeners: reply_listeners.clone(),\n                timeout: self.timeout,','                reply_listeners: reply_listeners.clone(),\n                timeout: self.timeout / pool_size as u32,')],
'''
#[tokio::main]
async fn main() {
    for n in [1, 2] {
        let mut l = listen("a");
        let pool = builder("a").timeout(Duration::from_millis(1200)).build_pooled_client(n).await.unwrap();
        let _peers: Vec<_> = [l.recv().await, if n > 1 { l.recv().await } else { None }].into_iter().collect();
        let start = std::time::Instant::now();
        let r = pool.acquire().emit("q", BytePayload::new(vec![])).await_reply().await;
        assert!(matches!(r, Err(IPCError::Timeout)));
        assert!(start.elapsed() >= Duration::from_millis(1100), "the request timed out early");
    }
}
''')
bug('c27-clamp','C27','a time-to-live the system does not allow','the time-to-live of a client is adjusted to what is allowed instead of being reported',
 [(TCP,'        if let Some(ttl) = options.ttl {\n            stream.set_ttl(ttl)?;','        if let Some(ttl) = options.ttl {\n            // the field has eight bits\n            stream.set_ttl(ttl.clamp(1, u8::MAX.into()))?;')],
'''
use bromine::protocol::tcp::TcpOptions;
use tokio::net::{TcpListener, TcpStream};
#[tokio::main]
async fn main() {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let at = l.local_addr().unwrap();
    for (ttl, ok) in [(None, true), (Some(7), true), (Some(256), false), (Some(0), false)] {
        let r = IPCBuilder::<TcpListener>::new().address(at).client_options(TcpOptions { ttl }).build_client().await;
        assert_eq!(r.is_ok(), ok, "{:?}", ttl);
    }
    let _ = TcpStream::connect(at).await;
}
''')
