# Table of properties: the single source for properties.jsonl and MANIFEST.json (tools/mk.py writes both).
# fields: id, title, statement, over, text, why, files, mechanism[(name, where)], claim(dict technique, note) or na(reason)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], claim=claim, na=na))

SEQ = "tests run a handful of calls one at a time on loopback; they never sample the interleavings, late replies and misordered paths the rule quantifies over"

prop("C01", "A response reaches exactly the call that asked for it",
 "A call is completed only by a response carrying the sequence number of its own request; every request sent by a client gets a fresh sequence number that is the one registered for it, and a reply echoes the sequence number, method and synchronous/asynchronous marking of the request it answers. A response nobody waits for is discarded without touching any other call.",
 ["schedules","histories"], "all interleavings of concurrent calls, responses, timeouts and replies, and every path through the call, reply and receive code",
 SEQ, ["client.go","handler.go","context.go","proto.go"],
 [("pending-call table keyed by sequence number","client.go Call/CallContext/CallAsync"),("response branch of the message dispatcher","handler.go OnMessage"),("reply construction","context.go write")],
 ["Client.Call","Client.CallContext","Client.CallAsync","Context.Write","Handler.OnMessage"])

prop("C02", "Every blocking operation can be released by its limit and by shutdown",
 "Every public operation that waits (call, notify, push, stream send and stream receive) waits at the same time for its own time limit or context, where it takes one, and for the connection's shutdown, so it returns no later than the first of these. A wait that ends on the limit reports a timeout and one that ends on shutdown reports that the client is stopped, never success.",
 ["schedules","fault_sequences"], "all schedules in which the queue is full, the peer is silent, or the connection shuts down at any moment of the wait",
 "tests wait for a reply that comes, or for one timeout; which alternative of each wait is missing only shows when exactly that event happens during exactly that wait",
 ["client.go","stream.go"], [("selects on send queue, reply slot, timer/context and close signal","client.go, stream.go")],
 ["Client.Call","Client.CallContext","Client.Notify","Client.NotifyContext","Client.PushMsg","Stream.Send","Stream.Recv"])

prop("C03", "Finished calls leave nothing behind and replies never block the reader",
 "However a synchronous call ends - reply, timeout, cancellation, send failure, shutdown - it is no longer registered afterwards. Handing a response to its caller never blocks the goroutine that reads the connection, whatever the peer sends: duplicates, late replies or replies to abandoned calls.",
 ["schedules","inputs","fault_sequences"], "all ways a call can end and all response sequences a peer can send",
 "tests see one reply per request; leaked registrations and a wedged read loop need duplicate or late replies, or an error exit",
 ["client.go","handler.go"], [("registration and removal of pending calls","client.go"),("reply slot of each pending call","handler.go OnMessage")],
 ["Client.Call","Client.CallContext","Handler.OnMessage"])

prop("C04", "An accepted asynchronous call runs its callback exactly once",
 "An asynchronous call without a callback is refused. If an asynchronous call reports success, its callback is invoked exactly once: with the response, with a timeout error, or with a disconnection error; if it reports an error, the callback is never invoked. The bookkeeping record of one call is never reused for another while it can still be invoked.",
 ["schedules","fault_sequences"], "all interleavings of response, timer, disconnection, message drop and send failure",
 "each race between timer, reader and reconnect is a narrow window tests do not hit",
 ["client.go","handler.go"], [("table of pending async callbacks, take = look up and delete in one critical section","client.go"),("timer armed per async call","client.go CallAsync")],
 ["Client.CallAsync"])

prop("C05", "Queued messages are written whole, once, and in order",
 "On one connection the messages taken from the send queue are written in the order they were queued, each exactly once and complete, batched or not, unless the client is reconnecting or stopped, in which case they are dropped, and each is reported done once; in every configuration the queue keeps being emptied until the client is closed. A failed write of a queued or directly sent message closes the connection, so no later message follows a partial one.",
 ["schedules","inputs","configurations"], "all queue contents, batch boundaries, send modes and write failures",
 "tests with a few messages do not reach every batch boundary, nor a write that fails in the middle",
 ["client.go","stream.go","context.go","handler.go"], [("send loops (normal and batch)","client.go"),("direct-write branches","client.go, stream.go, context.go")],
 ["Client.PushMsg","net.Conn.Write"])

prop("C06", "A send reports success only if the message was handed over",
 "Call, notify, push, reply and stream-send operations return success only if the message was accepted by the send queue or written to the connection without error; every other outcome returns a non-nil error. A message that was not handed over is released or reported as dropped exactly once, and a zero timeout, and only that, never waits: a full queue is reported as overstocked at once.",
 ["schedules","configurations","fault_sequences"], "all exits of every sending operation in queued and direct mode",
 "the failure exits need a full queue, a reconnecting client or a failing connection at the right moment",
 ["client.go","context.go","stream.go"], [("error exits of the sending operations","client.go, context.go, stream.go")],
 ["Client.Notify","Client.PushMsg","Context.Write","Stream.Send"])

prop("C07", "The 16-byte header has the documented layout, field by field",
 "The header is 16 bytes little-endian: body length (4), reserved/flag bits (1), command with two stream bits on top (1), error and async flags (1), method length (1), sequence number (8), followed by method and body. Every accessor reads exactly its own bits, every setter changes exactly its own bits, and a newly built message defines every header bit whatever memory it was given.",
 ["inputs"], "all values of all header fields and all previous contents of the buffer",
 "tests check a few values on zeroed memory; a setter that disturbs a neighbouring bit or leaves stale bits needs particular values",
 ["proto.go"], [("header accessors and message constructor","proto.go")],
 ["Message accessors","newMessage"])

prop("C08", "Receiving is bounded and exact",
 "A frame whose announced body length exceeds the configured maximum is refused before any memory is allocated for it; otherwise exactly the announced number of bytes is read into the message and nothing beyond it. Any read error ends the connection and no partially read frame is ever dispatched.",
 ["inputs","fault_sequences"], "all byte streams a peer may send, including truncated and oversized frames",
 "tests only send well-formed frames",
 ["proto.go","handler.go","client.go"], [("length check before allocation","proto.go Header.message"),("full reads of header and remainder","handler.go Recv"),("error exit of the read loop","client.go recvLoop")],
 ["Handler.Recv"])

prop("C09", "Invalid method names are rejected before they reach the wire or a handler",
 "Calls and notifications with an empty method name or one longer than 127 bytes fail with an error before anything is sent, and registering a handler for an over-long name is refused; a name of 1 to 127 bytes is never refused for its length. An incoming message whose method length is zero, above the limit or longer than its body is dropped before any handler sees it.",
 ["inputs"], "all method names, and all method-length bytes a peer may send",
 "boundary lengths 0, 127, 128, 255 and lengths beyond the body are not all sampled",
 ["proto.go","client.go","handler.go"], [("argument checks","client.go"),("receive-side check","handler.go OnMessage"),("registration checks","handler.go")],
 ["Client.Call","Client.Notify","Handler.OnMessage","Handler.Handle"])

prop("C10", "A panic in user code never takes down the process or the connection's reader",
 "A panic raised by a user-supplied handler, middleware, coder or callback is contained: it never escapes a goroutine, timer or accept loop started by the library, and a panicking message handler does not stop the connection from being read. No library lock stays held after such a panic.",
 ["inputs","schedules","programs"], "all user callbacks that may panic, at every point where the library calls them",
 "tests do not make every callback panic on every goroutine",
 ["util/util.go","handler.go","client.go","server.go"], [("recovering wrappers","util Safe/Recover"),("deferred recover in dispatch","handler.go OnMessage")],
 ["every goroutine the library starts"])

prop("C11", "Shared tables are only touched under their lock",
 "Every access to the library's internal tables shared between goroutines - pending calls, async callbacks, streams, client values, connected clients, topics, subscribers, service nodes, debug allocations - happens with the owning object's lock held, and every modification with it held exclusively. A table may be used without the lock only before it is published or after it has been detached under the lock.",
 ["schedules"], "all interleavings of all public operations",
 "the race detector sees only the interleavings that happen; a map race may need hours to crash",
 ["client.go","stream.go","server.go","extension/pubsub/server.go","extension/pubsub/client.go","extension/pubsub/topic.go","extension/micro/service.go","allocator.go"],
 [("one mutex per structure guarding its maps","struct definitions")], ["all map accesses of mutex-bearing structures"])

prop("C12", "Locks are always released and never nest into a deadlock",
 "Every lock taken by the library is released on every path out of the operation that took it, is never taken again while already held, and locks are only nested in one consistent order. While a lock on per-connection or publish/subscribe client state is held the library neither waits for a channel or the network nor runs user-supplied callbacks, except for the documented iteration and restart operations.",
 ["schedules","programs"], "all paths through all locking code and all nestings of public operations, including calls made back from user callbacks",
 "deadlocks need two operations to meet in opposite order, or a callback to call back in",
 ["client.go","server.go","stream.go","extension/pubsub/*.go","extension/micro/service.go"], [("lock/unlock pairs and deferred unlocks","all files with a mutex")], ["all lock operations"])

prop("C13", "A message is released at most once and never used afterwards",
 "With buffer pooling enabled, no message or its buffer is released twice, and none is read, written, queued or handed to user code after its release; a message queued to several connections is retained once per queue. A completed reply, timeout, drop or error path never releases a message another goroutine still owns.",
 ["schedules","configurations","histories"], "all paths a message takes through send, receive, drop, broadcast and publish, with pooling on",
 "the suite runs with pooling off or with a single receiver; corruption by a double release appears later and elsewhere",
 ["client.go","handler.go","context.go","proto.go","server.go","extension/pubsub/topic.go"], [("Release/Retain reference count","proto.go"),("message-done and context-done hooks","handler.go")], ["Handler.OnMessageDone","Message.Release"])

prop("C14", "Middleware and handler run once each, in registration order, until aborted",
 "For every request or notification the middlewares registered before the method run in registration order, then the method's handler, then middlewares registered later, each exactly once however they call on to the next one; after an abort nothing further in the chain runs, for chains of any length. The not-found handler runs in the same kind of chain, and every message starts its chain from the beginning.",
 ["programs","configurations"], "all chain lengths and all placements of next and abort calls",
 "tests use chains of a few functions in one arrangement",
 ["handler.go","context.go"], [("handler chain and its index","context.go Next/Abort"),("chain construction","handler.go Use/Handle")], ["Handler.Use","Handler.Handle","Context.Next","Context.Abort"])

prop("C15", "Coders see every message once, in mirrored order",
 "Every outgoing message except ping and pong passes through all coders registered by then exactly once, in registration order, before it is written; every incoming message except ping and pong passes through all of them exactly once in the reverse order before anything else looks at it. What is written or dispatched is what the last coder returned.",
 ["configurations","schedules"], "any number of coders, in every sending mode and on every sending operation",
 "tests use at most one or two coders and not in every mode",
 ["client.go","handler.go","stream.go","context.go"], [("encode loops in front of each write","client.go, stream.go, context.go"),("decode loop","handler.go OnMessage")], ["MessageCoder.Encode","MessageCoder.Decode"])

prop("C16", "Each message is dispatched by its kind to the right place, once",
 "A request or notification runs the handler chain of exactly its method - or the not-found chain - once, inline or through the executor as registered, which runs the work once; its context is reported done once, after the handlers; a ping is answered by a pong and nothing else; an unknown command stops the client. Only requests are answered: replying to a notification is refused and sends nothing.",
 ["inputs","histories"], "all command values, methods and flag combinations a peer may send",
 "tests send valid commands to registered methods",
 ["handler.go","context.go"], [("command switch","handler.go OnMessage"),("reply guard","context.go")], ["Handler.OnMessage","Context.Write"])

prop("C17", "Errors stay errors across the wire",
 "A handler that replies with an error value is seen by the caller as an error with that text, never as a successful result, and a successful reply is never seen as an error (nor is a request or notification marked as one); this holds in queued and direct writing alike, and the middleware can observe the error. A reply of the wrong kind or a lost reply is reported as an error and the caller's result is left untouched by error replies.",
 ["inputs","configurations"], "all reply values and reply modes",
 "tests cover one error string in one mode",
 ["context.go","client.go","proto.go"], [("error flag on replies","context.go"),("response parsing","client.go")], ["Context.Error","Client.Call"])

prop("C18", "A cloned handler is independent of its original",
 "After cloning a handler, no registration or configuration change on either copy is visible on the other: methods, stream methods, middleware, coders, callbacks, limits and context. The clone starts with the original's configuration and its callbacks act on the clone's own settings.",
 ["programs","histories"], "all sequences of registration and configuration calls on original and clone",
 "tests compare a few getters right after cloning",
 ["handler.go"], [("deep copy of registration tables","handler.go Clone")], ["Handler.Clone"])

prop("C19", "A connection is torn down completely, exactly once",
 "When a client's connection ends for good - peer close, read error, reconnect limit, or a stop from anywhere, even from inside a handler - the connection is closed, every waiter is woken, the server's accounting is updated and the disconnect callback runs, each exactly once and in every configuration. No exit of the reading goroutine skips this.",
 ["schedules","configurations","fault_sequences"], "all moments at which a stop or a failure can occur, for dialed and accepted clients, in queued and direct mode",
 "tests stop clients at quiet moments and do not check for missing cleanup",
 ["client.go"], [("cleanup at the end of the read loop","client.go recvLoop/closeAndClean")], ["Handler.OnDisconnected","Server.CurrLoad"])

prop("C20", "Reconnecting fails pending work first and then starts clean",
 "When a dialed client loses its connection every pending call, async call and stream is failed before a new connection is used; the new connection gets a fresh reader and is announced as connected only after the client is usable again. Creating a client reports a failed dial and starts nothing; restarting stops the old connection, dials a new one and makes the client usable on it from a clean state, or reports why it could not. While reconnecting or stopped, operations are refused; attempts stop at the configured maximum (0 or less meaning unlimited) or when the client is stopped.",
 ["fault_sequences","configurations","histories"], "all sequences of disconnects, dial failures and stops",
 "tests reconnect once to a healthy server",
 ["client.go"], [("reconnect section of the read loop","client.go recvLoop")], ["Client.Call","Handler.OnConnected"])

prop("C21", "The server's load, registry and limit stay exact",
 "Each accepted connection is counted once and uncounted once; a connection is served if and only if the load including it does not exceed the maximum (0 or less meaning unlimited), and a refused one is closed and uncounted. A served client is in the server's registry from before it can disconnect until it has disconnected or the server stops, a served client is announced as connected once, temporary accept errors do not stop the server while a permanent one ends serving, and stopping it stops all registered clients.",
 ["schedules","histories","fault_sequences"], "all interleavings of accepts, disconnects, accept errors and stops, and all limits",
 "tests stay far below the limit and never disconnect during accept",
 ["server.go","client.go"], [("accept loop and load counter","server.go")], ["Server.CurrLoad","Server.MaxLoad","Server.Broadcast"])

prop("C22", "Streams end cleanly: data before end, end reported once, no send after close",
 "A stream receiver gets every non-empty data message that preceded the peer's end mark before it is told the stream ended, and after the end every receive - with or without context - reports the end and never blocks or crashes. Closing is idempotent per direction, sending after closing is refused, the end mark is sent at most once, and a stream is forgotten once both directions are closed.",
 ["schedules","histories"], "all orders of send, receive, close and peer close on a stream",
 "tests run one well-behaved exchange",
 ["stream.go","handler.go","client.go"], [("close states and data channel","stream.go"),("end-mark handling","handler.go OnMessage")], ["Stream.Recv","Stream.RecvContext","Stream.Send","Stream.CloseSend"])

prop("C23", "Stream messages reach exactly the stream they belong to",
 "A stream message is delivered to the stream with its id on the side that opened it, so streams opened by the two peers never mix even with equal ids; a first message for an unknown id of a registered stream method opens one stream and runs its handler once, and anything else is dropped. Every message a stream sends carries its own id, its method and the side that opened it.",
 ["histories","inputs"], "all id collisions between the two peers and all first-message orders",
 "tests open streams from one side only",
 ["stream.go","handler.go","client.go"], [("two tables of streams by opener","client.go"),("stream branch of dispatcher","handler.go")], ["Client.NewStream","Handler.HandleStream"])

prop("C24", "Broadcast offers the message to every selected client, once",
 "A broadcast offers the notification to every client registered at that moment (that passes the filter, if any) exactly once, without waiting for any of them: a client that is full, stopped or reconnecting does not keep the others from receiving it.",
 ["histories","fault_sequences"], "all sets of connected clients and all subsets that fail",
 "tests broadcast to a few healthy clients",
 ["server.go"], [("iteration over registry","server.go")], ["Server.Broadcast","Server.BroadcastWithFilter","Server.ForEach"])

prop("C25", "A client pool spreads work and skips broken members",
 "A pool of any positive size hands out its members in rotation (each pick advances by one), never an out-of-range or missing member, and skips a stopped or reconnecting member as long as another member is usable. If any member cannot be connected at creation, all members already connected are stopped and an error is returned.",
 ["inputs","histories","fault_sequences"], "all pool sizes, rotation counter values including wrap-around, and all subsets of broken members",
 "tests use small healthy pools",
 ["client.go"], [("round-robin counter","client.go ClientPool")], ["ClientPool.Next","ClientPool.Get","NewClientPool"])

prop("C26", "Publish/subscribe operations require authentication",
 "On a publish/subscribe server, subscribe, unsubscribe and publish requests have no effect unless the same connection has authenticated with exactly the configured password; a wrong password, an undecodable one or no authentication at all never grants access. A failed authentication is answered with an error and a successful one acknowledged only once it is in force.",
 ["histories","inputs"], "all request orders and passwords a peer may send",
 "tests authenticate properly first",
 ["extension/pubsub/server.go"], [("per-connection authentication mark","pubsub server onAuthenticate/invalid")], ["pubsub.Server"])

prop("C27", "Topic membership follows subscribe, unsubscribe and disconnect",
 "A publication is offered to exactly the clients subscribed to that topic at that moment, once each; publish-to-one stops at the first client that accepts it. After an unsubscribe was acknowledged or the client disconnected the topic no longer holds the client, whatever order concurrent requests run in, and a subscription is acknowledged only after it is in force. Every subscribe, unsubscribe and publish request of an authenticated client is answered exactly once.",
 ["schedules","histories"], "all interleavings of subscribe, unsubscribe, re-authentication, publish and disconnect",
 "tests subscribe once and publish sequentially",
 ["extension/pubsub/server.go","extension/pubsub/topic.go"], [("topic agents and per-client topic table","pubsub server/topic")], ["pubsub.Server.Publish","pubsub.Client.Subscribe"])

prop("C28", "Topic encoding is self-consistent and safe on any input",
 "Encoding a topic and decoding the bytes uses one layout (payload - the published value in the publisher's codec -, name, 2-byte name length, 8-byte timestamp); decoding arbitrary bytes either succeeds or returns an error, never crashes or reads outside the input. Encoding never modifies memory owned by the caller.",
 ["inputs"], "all byte strings, names and payloads",
 "tests only decode what was just encoded",
 ["extension/pubsub/topic.go"], [("toBytes/fromBytes","pubsub topic")], ["pubsub.Topic"])

prop("C29", "Subscriptions survive reconnection",
 "After a publish/subscribe client reconnects it authenticates again and, if that succeeds, subscribes again to every topic it is subscribed to, each under its own name, trying again when a request fails; topics whose subscription failed or was cancelled are not resubscribed. Authenticate, subscribe, unsubscribe and publish report success exactly if the server acknowledged the request. Handlers run without blocking further subscribe or unsubscribe calls made from them.",
 ["fault_sequences","histories"], "all histories of subscribe, unsubscribe, failure and reconnect",
 "tests do not reconnect subscribed clients repeatedly",
 ["extension/pubsub/client.go"], [("resubscription on connect","pubsub client"),("topic handler table","pubsub client")], ["pubsub.Client"])

prop("C30", "Body coders keep the frame consistent",
 "After any bundled coder (compression, value appending, message packing) has encoded or decoded a message, the announced body length equals the bytes actually present and a coder's flag bit is set exactly when its transformation is present; a message that cannot be transformed is passed on unchanged. Decoding arbitrary bytes from a peer never crashes.",
 ["inputs"], "all message contents and sizes, including failing transformations and hostile trailers",
 "tests cover matching encode/decode pairs only",
 ["extension/middleware/coder/appender.go","extension/middleware/coder/gzip/gzip.go","extension/middleware/coder/msgpack/msgpack.go"], [("Encode/Decode of the bundled coders","extension/middleware/coder")], ["MessageCoder.Encode","MessageCoder.Decode"])

prop("C31", "Graceful shutdown drains started requests and refuses new ones",
 "Once a graceful shutdown has begun no further handler behind the middleware is started and such requests are answered with the shutting-down error; the shutdown returns only after every handler that was started before has finished, also if it panicked.",
 ["schedules"], "all interleavings of requests with the shutdown",
 "needs a request to arrive in the exact window of the shutdown",
 ["extension/middleware/router/graceful.go"], [("wait group and shutdown flag","graceful.go")], ["router.Graceful"])

prop("C32", "Service discovery serves only current, reachable nodes",
 "A lookup by service name returns only a connected client of a node currently registered under that name, trying every node before reporting it unreachable; deleting a node stops its client, leaves the nodes of other services alone, and no lookup returns it afterwards. Re-adding a known node, retries and failed directory reads neither leak connections nor drop healthy nodes. A directory entry is written in the form it is read back, renewed at its interval and removed when the registration stops.",
 ["histories","fault_sequences","schedules"], "all histories of add, delete, connect failure and lookup",
 "tests need live directories and cover almost nothing of it",
 ["extension/micro/service.go","extension/micro/redis/discovery.go","extension/micro/redis/register.go","extension/micro/etcd/discovery.go","extension/micro/etcd/register.go"], [("node lists","micro service"),("directory watchers","micro/etcd, micro/redis")], ["ServiceManager.ClientBy"])

prop("C33", "Transport adapters honour the connection contract",
 "The websocket and QUIC adapters behave like ordinary connections and listeners: reads lose, duplicate or reorder no byte whatever buffer sizes are used, a write reports exactly the bytes accepted and may be called concurrently, deadlines and close reach the underlying transport, every connection that arrives is handed to an accept or closed, and closing a listener makes a blocked accept return an error.",
 ["inputs","schedules"], "all buffer sizes, message sizes and concurrent uses",
 "tests use one buffer size and one writer",
 ["extension/protocol/websocket/websocket.go","extension/protocol/quic/quic.go"], [("Conn and Listener adapters","extension/protocol")], ["websocket.Conn","websocket.Listener"])

prop("C34", "The splitting listener counts exactly and leaks no connection",
 "The first listener of a split receives connections as long as its online count, including the new connection, does not exceed its limit, and the second listener receives all others; every accepted connection is delivered to exactly one of them or closed. A released slot becomes usable again, and after close a blocked accept returns an error.",
 ["histories","schedules"], "all sequences of accepts, releases and close, and all limits",
 "tests accept a few connections",
 ["extension/listener/listener.go"], [("online counter and two queues","listener.go")], ["listener.Listener"])

prop("C35", "Values convert the same way in both directions and never alias pooled memory",
 "A value becomes bytes by its type alone: byte slices, strings, errors and pointers to them become their own bytes, nil an empty body, and every other value what the configured codec (the default one if none) makes of it, on every path that builds a message. Reading a body into a byte slice or a string takes exactly its raw bytes (a stream receive also fills an error), and every other destination is left to the codec, whose outcome is returned. Values handed to the caller of a call or a stream receive are copies that stay valid after the message is released.",
 ["inputs","configurations"], "all value types, and every later reuse of the message buffer",
 "tests use a few types with pooling off",
 ["util/util.go","client.go","context.go","stream.go"], [("conversion tables","util ValueToBytes/BytesToValue"),("response parsing","client.go")], ["Client.Call","Stream.Recv"])

prop("C36", "Directly written frames are never interleaved on the connection",
 "When several goroutines send on one client without the send queue, the bytes of their frames are never interleaved on the wire and frames of one goroutine keep their order.",
 ["schedules","configurations"], "all interleavings of concurrent direct writers",
 "needs partial writes on a congested connection",
 ["client.go","stream.go","context.go"], [("one write call per frame","client.go")], ["net.Conn.Write"],
 na="Interleaving is decided by the net.Conn implementation the user supplies (net.TCPConn serialises whole Write calls, others need not); the part visible in this source - each frame is passed in one write call - is decided under C05, and no static argument over this repository can cover the rest.")

prop("C37", "Compression and packing round-trip to the identical message",
 "Decoding what a bundled coder encoded yields a message equal to the original in every header field, the method, the body and the attached values.",
 ["inputs"], "all messages",
 "equality over all inputs is not sampled",
 ["extension/middleware/coder/gzip/gzip.go","extension/middleware/coder/msgpack/msgpack.go"], [("Encode/Decode","extension/middleware/coder")], [],
 na="Byte-for-byte equality depends on the run-time behaviour of compress/gzip and the msgpack library (external code and runtime values); the structural clauses - flag, length, restored field positions - are decided under C30.")

prop("C38", "Timeouts fire within a bounded delay of their deadline",
 "An operation with a time limit returns within a small bounded delay after the limit expires.",
 ["schedules"], "all loads and schedules",
 "timing under load is not sampled",
 ["client.go"], [("timers","client.go")], [],
 na="A wall-clock bound depends on the scheduler and load at run time and no static argument bounds it; the structural clause - every wait has the limit as an alternative - is decided under C02.")

prop("C39", "The browser client speaks the same wire format",
 "The JavaScript client encodes and decodes the same header layout, commands and flags as the Go implementation and matches replies to calls by sequence number.",
 ["inputs"], "all messages exchanged with the browser client",
 "no test in the suite runs the JavaScript client",
 ["extension/jsclient/arpc.js"], [("header constants and codec","extension/jsclient/arpc.js")], [],
 na="Untyped browser code without a build here: its numeric behaviour (shifts on doubles, DataView use) quantifies over runtime values, and the suite neither builds nor loads it, so no behaviour of the built artefact can be anchored; see DESIGN.md for the defects seen by reading.")

prop("C40", "Pooled buffers are exactly sized, keep their contents and have one owner",
 "Every buffer obtained from an allocator has exactly the requested length. Growing a buffer keeps the bytes it held and appending returns the bytes it held followed by exactly the appended ones, whatever the sizes and the pool's contents. Memory given back to the pool is given back once and is no part of any buffer the allocator returns. A handler passes sizes, buffers and bytes on to the registered functions unchanged, and allocates plainly where pooling is off.",
 ["inputs","histories","configurations"], "all sizes relative to the pool thresholds, all states of the pools",
 "tests use sizes below the threshold and buffers fresh from the runtime",
 ["allocator.go","handler.go"], [("buffer pool","allocator.go BufferPool"),("pool switch","handler.go EnablePool")], ["Allocator","Handler.Malloc/Append/Free"])


prop("C41", "Configured settings, hooks and timeouts take effect exactly as made",
 "Every setting of a handler reads back exactly as it was last set and setting one changes no other; a client made with a handler uses exactly that one, otherwise a copy of the default, and the members of a pool share one; queues hold exactly the configured number of messages; the package-level functions act on the default handler in the same way. A registered hook is invoked once per reported event, with exactly what the event concerns, and no other hook in its place. A configured read timeout limits the reading of every frame and a write timeout every write of frames; a failing before-read or before-write hook prevents the read or write and its error is returned.",
 ["inputs","configurations"], "all settings and values, all hooks registered or not, every frame read and every write",
 "tests read back some settings and register few hooks; timeouts are not exercised",
 ["handler.go"], [("setters, hooks and reporting functions","handler.go handler"),("read and write of frames","handler.go Recv/Send/SendN")], ["Handler","SetReadTimeout","HandleConnected"])

prop("C42", "Values attached to clients, messages and contexts are kept and not mixed up",
 "A value stored on a client, message or context under a key is what a later lookup of that key on the same object returns until it is replaced, deleted or the client restarted (which starts without values), and no other key is affected; storing a nil key or value does nothing. Values passed with a request, stream message or broadcast are carried by exactly that message and a reply carries those of its request; no message starts with values left by an earlier one.",
 ["inputs","histories"], "all keys and values, all sequences of operations, every reuse of pooled messages",
 "tests store one or two keys and do not look for leftovers of pooled messages",
 ["client.go","context.go","proto.go","server.go","stream.go"], [("value tables","Client.values, Message.values"),("message pool","proto.go")], ["Client.Get/Set/Delete","Context.Get/Set","Message.Get/Set"])
