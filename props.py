import json
P=[]
def p(id,title,st,over,q,why,files,mech):
    assert len(title)<=80,id
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
EV='src/events/event.rs'; GEN='src/events/mod.rs'; IPC='src/ipc/mod.rs'; CTX='src/ipc/context.rs'; BLD='src/ipc/builder.rs'
SE='src/ipc/stream_emitter/'; PAY='src/events/payload.rs'; ENC='src/protocol/encrypted/'
p('C01','Encoding and decoding an event gives the same event back',
 'Decoding the bytes of an encoded event yields an event with the same id, type, reference id, namespace, name and payload, consumes exactly those bytes, and leaves the next event on the stream intact. An empty namespace is the same as no namespace.',
 ['inputs'],'every event type, reference id, namespace, name and payload of the public constructors, alone and followed by another event',
 'Tests round-trip a handful of fixed events; the guarantee is over all ids, UTF-8 names, lengths (also across the 8/16 bit boundaries of the length fields) and payload bytes.',
 [EV],[('Event::into_bytes / from_async_read',EV),('EventHeader::into_bytes / from_read',EV)])
p('C02','The bytes on the wire are exactly the specified layout',
 'An encoded event is, byte for byte, the documented big-endian layout with format version 0.9.0, and every byte sequence of that layout decodes to the event it describes. Peers built from another implementation of the specification can therefore talk to this one.',
 ['inputs'],'all field values and lengths within the bounds',
 'A change of encoder and decoder together (order, endianness, length base, version bytes) passes every round-trip test; no test compares bytes with the specification.',
 [EV,'SPECIFICATON.md'],[('Event::into_bytes',EV),('EventHeader::from_read',EV),('FORMAT_VERSION',EV)])
p('C03','No byte sequence makes the decoder panic, over-read, or misread a frame',
 'For any bytes a peer sends, decoding ends with exactly the event the specification assigns to them or with an error; it never panics, never reads past the frame, and never allocates in proportion to an announced length it has not received. A frame of another major version is reported as unsupported version.',
 ['inputs'],'all byte strings up to the bound, all announced lengths',
 'Tests feed only well-formed frames; a malicious or corrupted length, type, flag or UTF-8 sequence is one input among 2^n.',
 [EV],[('length checks in from_async_read',EV),('read_version, read_ref_id, read_string',EV)])
p('C04','Unknown trailing header fields and minor versions are tolerated',
 'A frame whose header is longer than this version knows, or whose minor or patch version differs, decodes to the same event as without the extra fields, and the following frame is found where it begins.',
 ['inputs'],'all extension bytes up to the bound, all minor/patch versions, all events within bounds',
 'No test appends header fields; forward compatibility only shows with frames the current encoder cannot produce.',
 [EV],[('the header is read by its announced length and parsed from its front',EV)])
p('C05','Decoding does not depend on how the transport cuts the stream',
 'However the transport delivers the bytes (any segmentation, any number of not-ready answers), the same events are decoded; a stream that ends inside a frame yields an error and no event; an incomplete frame is waited for without losing bytes.',
 ['inputs','schedules','fault_sequences'],'all cut positions within bounds, all truncation points',
 'Over loopback small frames arrive whole; the tests never see a frame split inside a length field or header.',
 [EV],[('read_exact / read_to_end on the stream',EV)])
p('C06','What does not fit the length fields is refused, never sent as something else',
 'Encoding an event either produces bytes that decode to that event or returns an error; it errs only if the header does not fit its length field.',
 ['inputs'],'names and namespaces of every length around the 16 bit limits, with symbolic contents',
 'No test uses names near 64 KiB; a truncated length silently produces a stream the peer misreads.',
 [EV],[('u16 conversions of lengths in into_bytes',EV)])
p('C07','Event ids are unique within a process',
 'No two events created in a process have the same id, whatever the clock does (also when it stands still or goes backwards), however many are created (up to 2^32), and on whichever threads.',
 ['inputs','schedules','histories'],'all clock readings; histories of up to the stated number of events; all interleavings of two threads creating events',
 'Tests create few events in order under a forward clock on one thread.',
 [GEN],[('generate_event_id: counter and timestamp',GEN)])
p('C08','A reply reaches exactly the request it refers to',
 'A request that waits for a reply gets the first event whose reference id is the request\'s id, unchanged, and never any other; an event with a reference id nobody waits for is processed like a regular event, and none is delivered twice. An error-type reply surfaces as the error it carries.',
 ['inputs','schedules','histories'],'all sequences of incoming events up to the bound with any mix of reference ids, for several requests in flight',
 'Tests have one request in flight and one well-behaved peer.',
 [IPC,CTX,SE+'emit_metadata_with_response.rs'],[('reply routing in handle_connection',IPC),('reply listener registry',CTX)])
p('C09','A reply is never lost, however early it arrives',
 'A reply that arrives before its timeout completes the request for every order in which the request, the receiving task and the peer run, even if it arrives before the sending call has returned.',
 ['schedules'],'all interleavings at await points of sender, receiver and peer up to the step bound, with all partial writes within the bounds',
 'Whether the reply overtakes the sender is a matter of scheduling that a test cannot choose.',
 [SE+'emit_metadata_with_response.rs',CTX],[('the listener is registered before the event is sent',SE+'emit_metadata_with_response.rs')])
p('C10','A reply stream yields all replies in order and ends after the final one',
 'A stream of replies yields every event that refers to the request, unchanged, in the order received, without loss or duplication however slowly it is read, ends exactly once after the End event, and afterwards (or when dropped) stops claiming such events.',
 ['inputs','schedules','histories'],'all reply sequences and consumer/receiver interleavings up to the bounds, beyond the channel capacity',
 'The tests read few replies promptly; back-pressure, dropping and late polling are schedules they do not produce.',
 [SE+'emit_metadata_with_response_stream.rs',CTX,IPC],[('ResponseStream::poll_next',SE+'emit_metadata_with_response_stream.rs'),('bounded channel and guard',CTX)])
p('C11','A request times out exactly when its timeout has elapsed without a reply',
 'A request (or the next item of a reply stream) reports a timeout if and only if its own timeout, or else the configured default, has elapsed without a reply, however late it is polled; a reply after the timeout was reported is treated like any event nobody waits for, and further use of the request or stream does not panic.',
 ['inputs','schedules'],'all timeouts and elapsed times (symbolic), with and without replies around the deadline',
 'Tests use one timeout value with a margin of real time; both sides of the deadline and the units are never compared.',
 [SE+'emit_metadata_with_response.rs',SE+'emit_metadata_with_response_stream.rs',BLD],[('select of receiver and sleep',SE+'emit_metadata_with_response.rs'),('default_reply_timeout',CTX)])
p('C12','Each event reaches exactly the handler registered for its namespace and name',
 'A received event without a waiting request runs the one handler registered for its (namespace, name), with the event unchanged, and no other; the latest registration wins; events for unknown names or unknown namespaces run nothing, and the connection goes on.',
 ['inputs','histories','programs'],'all sequences of events up to the bound over registered and unregistered names and namespaces, all payloads, all ids',
 'Tests send registered names; unknown namespaces, same names in different namespaces and re-registration are not distinguished.',
 [IPC,'src/events/event_handler.rs','src/namespaces/namespace.rs'],[('dispatch in handle_connection',IPC),('EventHandler::on / handle_event','src/events/event_handler.rs')])
p('C13','Every handled event is answered by exactly one final event that refers to it',
 'For every event processed as a regular event exactly one final event is sent: End with the handler\'s response, or Error with code 500 and the handler\'s error; it refers to the handled event and comes after everything the handler emitted, and events emitted in the handler are responses referring to the same event. A dangling End is never answered, and two endpoints left alone come to rest.',
 ['inputs','programs','schedules'],'all handler outcomes, payloads, ids, event types and interleavings of concurrently running handlers within bounds',
 'Tests observe the happy path through one client; the wire between is not inspected and handlers never overlap in chosen orders.',
 [IPC,CTX],[('handle_event',IPC),('Context::emit with ref_id',CTX)])
p('C14','Concurrent and cancelled emits never interleave their bytes',
 'The bytes sent on a connection are always a sequence of whole events, one for each emit, under every interleaving of concurrent emits, every partial write of the transport, and every point at which an emit is cancelled; an emit that finished before another began comes first.',
 ['schedules','fault_sequences'],'all interleavings of several emits at await points, all partial writes and cancellation points within bounds',
 'Loopback sockets accept whole frames, so that no test suspends an emit inside a frame.',
 [SE+'mod.rs',SE+'emit_metadata.rs'],[('one lock per connection around write and flush',SE+'emit_metadata.rs')])
p('C15','A malformed frame or disconnect ends that connection and nothing else',
 'When a peer sends bytes that are not a frame or closes the connection, events received before are still processed, nothing after it is, the server closes that connection, keeps serving all others, and accepts new ones.',
 ['inputs','fault_sequences','histories'],'all malformed or truncated byte strings within bounds at any position, any of the connections, any transport error point',
 'Tests never send garbage to a server with other clients connected.',
 [IPC,'src/ipc/server.rs'],[('handle_connection loop','src/ipc/mod.rs'),('accept loop','src/ipc/server.rs')])
p('C16','A successful emit has been written and flushed completely',
 'If emitting returns success with an id, exactly the frame with that id was handed to the transport and flushed, whatever partial writes or delays the transport chose; if the transport fails, or the payload cannot be encoded, emitting returns an error.',
 ['inputs','fault_sequences'],'all payloads, all partial-write sequences and all failure offsets within bounds',
 'Transport failures at a chosen byte and partial writes do not occur in tests.',
 [SE+'emit_metadata.rs',SE+'event_metadata.rs'],[('EmitMetadata future',SE+'emit_metadata.rs')])
p('C17','The encryption layer is a transparent byte stream',
 'Bytes written to one end of an encrypted connection come out of the other end unchanged, in order and complete after a flush, for every sequence of writes, reads of any buffer size, segmentation of the transport and schedule; a full IPC exchange works over it.',
 ['inputs','schedules','histories'],'all contents; write/read sizes, cuts and schedules within bounds, including sizes across the write buffer limit',
 'The tests exchange a few small events over loopback; package boundaries never coincide with awkward read sizes or cuts.',
 [ENC+'io_impl.rs',ENC+'mod.rs'],[('EncryptedReadStream::poll_read, EncryptedWriteStream::poll_write',ENC+'io_impl.rs'),('EncryptedPackage',ENC+'mod.rs')])
p('C18','Tampered, truncated, reordered or replayed packages are never delivered',
 'Whatever an attacker between the peers does to the encrypted bytes (change, truncate, drop, duplicate, reorder or reflect packages), the reader delivers only a prefix of what the other side wrote, then an error; never altered or repeated data, and never a panic.',
 ['inputs','fault_sequences'],'all single-byte alterations and all drop/duplicate/swap manipulations of up to the bounded number of packages; ideal AEAD',
 'No test touches the ciphertext.',
 [ENC+'io_impl.rs',ENC+'crypt_handling.rs'],[('counter nonces',ENC+'crypt_handling.rs'),('errors end the read',ENC+'io_impl.rs')])
p('C19','No nonce is used twice with the same key',
 'No two packages are encrypted under the same key and nonce: not over the life of a connection, before and after the change of the key, whatever is written, flushed, fails or is cancelled; not in its two directions; not on two connections between the same peers, whose data keys differ.',
 ['histories','schedules','fault_sequences'],'all histories of writes, flushes, failures and cancellations within bounds, and runs of 65537 packages',
 'Nonces are not observable in tests.',
 [ENC+'crypt_handling.rs'],[('CipherBox counters, nonce_from_number, update_key',ENC+'crypt_handling.rs')])
p('C20','Only authorised peers get a connection, and both sides agree on the key',
 'A key exchange succeeds on a side only if unknown peers are allowed or the key the other side presented is a known one; otherwise it fails naming that key before any secret is sent. If both succeed they share the same fresh key, and the channel works in both directions.',
 ['inputs','configurations','fault_sequences'],'all keys, all known-peer lists within bounds, both policies on both sides, all segmentations and truncations of the handshake',
 'Tests use one key pair in the known list.',
 [ENC+'crypt_handling.rs',ENC+'protocol_impl.rs'],[('from_server_key_exchange / from_client_key_exchange',ENC+'crypt_handling.rs')])
p('C21','A failed handshake does not stop an encrypted server',
 'After any number of connections that fail the key exchange (unknown key, closed early, garbage), the server still accepts and serves the next authorised client.',
 ['fault_sequences','histories'],'all sequences of failing handshakes up to the bound at every truncation point',
 'The tests have one client and it is authorised.',
 [ENC+'protocol_impl.rs','src/ipc/server.rs'],[('EncryptedListener::protocol_accept',ENC+'protocol_impl.rs')])
p('C22','Payload encodings round-trip and never panic on foreign bytes',
 'Raw, tandem (also nested) and error payloads decode to what was encoded and have the documented layout; decoding any bytes yields a value the layout allows or an error, without a panic and without allocating by an announced length.',
 ['inputs'],'all payload contents and all byte strings within bounds, all announced lengths',
 'Tests round-trip fixed values and never decode foreign bytes.',
 [PAY,'src/events/error_event.rs'],[('TandemPayload','src/events/payload.rs'),('ErrorEventData','src/events/error_event.rs')])
p('C23','Serialized payloads carry their format and decode with it',
 'A value serialized with any enabled format is preceded by that format\'s id (0 MessagePack, 1 bincode, 2 postcard, 3 JSON) and decodes to the same value whatever default format the receiver uses; contexts use the configured default; unknown format ids and foreign bytes give an error, never a panic.',
 ['inputs','configurations'],'all values of the sample types, all format ids, all byte strings within bounds, each default format',
 'Each test uses one format on both sides, so that a mixed-up id goes unnoticed.',
 ['src/events/payload_serializer/mod.rs',PAY],[('DynamicSerializer','src/events/payload_serializer/mod.rs'),('SerdePayload',PAY)])
p('C24','A client pool hands out a least-used connection',
 'Acquiring from a pool returns a connection that, when the pool looks, is in use by no more guards than any other; guards and their clones count exactly, until dropped, also across clones of the pool and threads; a pool of size zero is refused, and a pool of size n opens n connections with the configured options.',
 ['histories','schedules','configurations'],'all histories of acquire, clone and drop up to the bound; pool sizes within bounds; two threads',
 'The test acquires a few guards in one order.',
 [CTX,BLD],[('PoolGuard count, PooledContext::acquire',CTX),('build_pooled_client',BLD)])
p('C25','The builder passes on exactly what was configured, or reports an error',
 'Building uses the configured address, options, timeout, shared data, handlers and namespaces on every connection; a missing address or a failing bind or connect is an error and not a panic or a silent success.',
 ['configurations','inputs'],'all combinations and orders of builder calls within bounds, all option values',
 'Tests build with one configuration and defaults elsewhere.',
 [BLD,'src/ipc/client.rs','src/ipc/server.rs','src/namespaces/builder.rs'],[('IPCBuilder',BLD)])
p('C26','Stopping a client ends its receiving and nothing else',
 'After a client is stopped no further event is read or handled and its receiving half is released, from whichever clone it was stopped and at whichever moment; stopping again is harmless, and a client nobody stopped keeps receiving while other contexts are dropped.',
 ['schedules','histories'],'all moments of stopping relative to incoming events, within bounds',
 'No test stops a client at a chosen moment and looks at what is still delivered.',
 [CTX,'src/ipc/client.rs'],[('stop sender and abort','src/ipc/client.rs')])
p('C27','Transport options and errors are passed through for TCP and Unix sockets',
 'Binding and connecting use the given address, apply a given time-to-live to the socket and none otherwise, report every failure of the operating system as an error, and the two halves of a split stream are the read and write side of the same connection.',
 ['inputs','configurations','fault_sequences'],'all addresses and time-to-live values, failure of each system call',
 'Tests use defaults; no test sets a time-to-live or makes a call fail.',
 ['src/protocol/tcp.rs','src/protocol/unix_socket.rs'],[('protocol_bind, protocol_connect, protocol_into_split','src/protocol/tcp.rs')])
p('C28','Encrypted writes survive cancellation and are complete when flushed or closed',
 'A flush or shutdown of an encrypted stream completes only after all bytes accepted before were encrypted and handed on and the inner stream was flushed or shut down; cancelling a write, flush or shutdown at any await point loses, repeats or reorders no accepted byte and never panics; errors of the transport are reported.',
 ['schedules','fault_sequences'],'all partial writes, delays, failure offsets and cancellation points within bounds',
 'A loopback socket accepts every package at once; the tests neither cancel nor shut down.',
 [ENC+'io_impl.rs'],[('poll_write, poll_flush, poll_shutdown',ENC+'io_impl.rs')])
p('C29','What is over leaves nothing behind',
 'However often requests and streams of replies are made (answered, failed, timed out or given up), events handled or emitted, pool guards acquired, cloned and dropped, connections accepted and lost, key exchanges failed, packages exchanged over an encrypted connection, or clients stopped and dropped, an endpoint holds no more memory for it afterwards than before; and the transport of a connection that ended (once its handlers are done), or of a client that was stopped or left by its peer and dropped, is closed in both directions.',
 ['histories','fault_sequences'],'histories of 100 to 400 repetitions of each kind of ending',
 'A process of a few events neither runs out of memory nor of sockets; the tests never look at what is left.',
 ['src/ipc/context.rs','src/ipc/stream_emitter/','src/ipc/mod.rs','src/ipc/client.rs','src/ipc/server.rs',ENC],[('ReplyListenerGuard','src/ipc/context.rs'),('handle_connection','src/ipc/mod.rs')])
p('C30','What waits holds up nothing else',
 'While a handler waits (for a reply, a stream of replies, time, or for ever), or while a connection takes no bytes or sends none, every other event is received, handled and answered, also of the same connection; replies reach the requests that wait for them; other connections of a server are accepted and served. What waits goes on as soon as it gets what it waits for: handlers on two sides that ask each other come to an end, to any depth. (Not included: reading a stream of replies too slowly may hold up its own connection, see C10, and a key exchange in progress holds up the accepting of an encrypted server.)',
 ['inputs','schedules','histories'],'every mixture and order of waiting handlers, stuck transports and connections within the bounds',
 'That the receiving task never waits for a handler, a lock or the sending side shows only when something is kept waiting at the right place; the tests let everything run to its end.',
 ['src/ipc/mod.rs','src/ipc/server.rs',CTX,SE],[('handle_connection, handle_event','src/ipc/mod.rs'),('the accept loop','src/ipc/server.rs'),('EventWriter, StreamEmitter',SE)])
p('C31','Nothing leaves an encrypted connection in the clear',
 'All that an encrypted connection puts on its transport is its own public key and then packages of four bytes of length and a ciphertext the cipher returned: first, from the server and only to a client it accepts, a fresh 32-byte secret under the key both agreed on; after it only what was written, under that secret. That holds whatever is cancelled, fails, is malformed or stopped.',
 ['inputs','fault_sequences','histories'],'all secrets, written data, operation sequences, cancellations and failures within the bounds',
 'No test looks at the bytes an encrypted connection sends; a shortcut for small or flushed data, a fallback after an error or a package under the key of the exchange is decrypted by the other end as well, or shows only when something fails.',
 [ENC],[('write_bytes, EncryptedWriteStream',ENC+'io_impl.rs'),('from_server_key_exchange, from_client_key_exchange, CipherBox',ENC+'crypt_handling.rs')])
p('C32','Futures and streams go on whoever polls them, and whenever',
 'Emits, requests, streams of replies, and reads, writes, flushes and shutdowns of an encrypted stream can be begun in one task and continued in another: the one that polled last is woken as soon as they can go on. Polling them, or waking any task of an endpoint, without need changes nothing: nothing is sent, handled, answered or delivered twice, no timeout is shortened or extended.',
 ['schedules','histories'],'every choice of the polling task and of needless polls within the bounds',
 'The tests await everything in one task on a runtime that never wakes without a reason.',
 ['src/ipc/stream_emitter/',ENC+'io_impl.rs','src/ipc/mod.rs'],[('ResponseStream::poll_next, EmitMetadata::poll',SE),('EncryptedReadStream, EncryptedWriteStream',ENC+'io_impl.rs')])
p('C33','Secrets are random in full and used once, and nobody is trusted by default',
 'Every secret that is made (by utils::generate_secret, in default encryption options, and by a server for each connection, where it is the key from then on) depends on at least 32 newly drawn random bytes and loses nothing of them: no two draws make the same secret, and no randomness is used for two. Encryption options nobody configured know no peer and refuse every one, on either side.',
 ['inputs','configurations'],'all random bytes and all presented keys',
 'Tests compare at most two secrets; one with 8 random bytes in it, or a default that trusts everybody, works just as well.',
 ['src/utils.rs',ENC],[('generate_secret','src/utils.rs'),('EncryptionOptions::default',ENC+'mod.rs'),('generate_secret, from_server_key_exchange',ENC+'crypt_handling.rs')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
