From e88a84b5a138a6e7aaeb61c633c995e9607b42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:45 +0000
Subject: [PATCH 01/60] fix: run each pending async callback when the
 connection is lost

The loop variable was captured by the deferred function, so with the
module's language version the last handler ran several times and the
others never.
---
 client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client.go b/client.go
index d44bdb1..c8f3c00 100644
--- a/client.go
+++ b/client.go
@@ -733,6 +733,7 @@ func (c *Client) clearAsyncHandler() {
 	c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 	c.mux.Unlock()
 	for _, ah := range handlers {
+		ah := ah
 		if ah.timer != nil {
 			ah.timer.Stop()
 		}
-- 
2.43.0


From b4e9fcc6435f669c9ade77cd603f21b45385e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:45 +0000
Subject: [PATCH 02/60] fix: Stream.RecvContext reports io.EOF after the stream
 ended

It dereferenced the nil message received from the closed channel.
---
 stream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream.go b/stream.go
index f1af279..e560bb4 100644
--- a/stream.go
+++ b/stream.go
@@ -83,7 +83,10 @@ func (s *Stream) Recv(v interface{}) error {
 
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
-	case msg := <-s.chData:
+	case msg, ok := <-s.chData:
+		if !ok {
+			return io.EOF
+		}
 		data := msg.Data()
 		err := util.BytesToValue(s.cli.Codec, data, v)
 		s.cli.Handler.OnMessageDone(s.cli, msg)
-- 
2.43.0


From 34c78ad98faed4adc7d382f7a9e3177645742c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 03/60] fix: a stream message nobody handles does not call a
 nil hook

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 7fd41e3..8c7a10a 100644
--- a/handler.go
+++ b/handler.go
@@ -800,7 +800,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
-				h.onMessageDone(c, msg)
+				h.OnMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
 			}
 		} else {
-- 
2.43.0


From e0f013cd91b704ae32d1a519ec20eec4289644df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/60] fix: a remote stream keeps its own copy of the method
 name

The name aliased the pooled buffer of the first message.
---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index 8c7a10a..cf10395 100644
--- a/handler.go
+++ b/handler.go
@@ -789,7 +789,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 		if !ok {
 			sh, ok := h.streams[method]
 			if ok && !local {
-				stream = c.newStream(msg.method(), id, false)
+				stream = c.newStream(msg.Method(), id, false)
 				stream.onMessage(msg)
 				if eof {
 					stream.CloseRecv()
-- 
2.43.0


From 2e32feef56885289be0a0d56c7af6d7462d16f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 05/60] fix: the batch send loop frees the buffer it ends with

The deferred call freed the initial buffer, which Append may already
have returned to the allocator.
---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c8f3c00..fe71495 100644
--- a/client.go
+++ b/client.go
@@ -933,7 +933,7 @@ func (c *Client) batchSendLoop() {
 	var coders []MessageCoder
 	var buffer = c.Handler.Malloc(2048)[0:0]
 	var sendBufferSize = c.Handler.SendBufferSize()
-	defer c.Handler.Free(buffer)
+	defer func() { c.Handler.Free(buffer) }()
 
 	for {
 		select {
-- 
2.43.0


From 4a671c8d498b31822d58c049bfd8d4f5a4b2487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 06/60] fix: every exit of the receive loop tears the
 connection down

A client stopped from its own handler, or before the loop started, left
its waiters, the server accounting and the disconnect callback undone.
---
 client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index fe71495..1756cda 100644
--- a/client.go
+++ b/client.go
@@ -829,11 +829,11 @@ func (c *Client) recvLoop() {
 			msg, err = c.Handler.Recv(c)
 			if err != nil {
 				log.Error("%v\t%v\tDisconnected: %v", c.Handler.LogTag(), addr, err)
-				c.closeAndClean()
-				return
+				break
 			}
 			c.Handler.OnMessage(c, msg)
 		}
+		c.closeAndClean()
 	} else {
 		go c.Handler.OnConnected(c)
 
@@ -878,8 +878,9 @@ func (c *Client) recvLoop() {
 
 				time.Sleep(time.Second)
 			}
-			c.closeAndClean()
+			break
 		}
+		c.closeAndClean()
 	}
 }
 
-- 
2.43.0


From 1493913180ee15d545dd0544f5512c65e8696dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:47 +0000
Subject: [PATCH 07/60] fix: Restart marks the client running before its loops
 start

---
 client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 1756cda..6d898b9 100644
--- a/client.go
+++ b/client.go
@@ -489,6 +489,9 @@ func (c *Client) Restart() error {
 		c.streamRemoteMap = make(map[uint64]*Stream)
 		c.values = map[interface{}]interface{}{}
 
+		c.running = true
+		c.reconnecting = false
+
 		c.initReader()
 		if c.Handler.AsyncWrite() {
 			c.chSend = make(chan *Message, c.Handler.SendQueueSize())
@@ -496,9 +499,6 @@ func (c *Client) Restart() error {
 		}
 		go util.Safe(c.recvLoop)
 
-		c.running = true
-		c.reconnecting = false
-
 		log.Info("%v\t[%v] Restarted to [%v]", c.Handler.LogTag(), preConn.RemoteAddr(), conn.RemoteAddr())
 	}
 
-- 
2.43.0


From d7fc6c1a004bdb0763661a6b01ee3b9fe00c04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:47 +0000
Subject: [PATCH 08/60] fix: waiters are woken on shutdown also without a send
 queue

---
 client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 6d898b9..dc1b9a5 100644
--- a/client.go
+++ b/client.go
@@ -520,9 +520,7 @@ func (c *Client) closeAndClean() {
 	c.mux.Unlock()
 
 	c.Conn.Close()
-	if c.chSend != nil {
-		close(c.chClose)
-	}
+	close(c.chClose)
 	if c.onStop != nil {
 		c.onStop(c)
 	}
-- 
2.43.0


From 0531dc3c27e048b85eb0d4c344e8bc0759a4cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:47 +0000
Subject: [PATCH 09/60] fix: dropping a queued message fails exactly the call
 it belongs to

A dropped async request lost its callback, and a dropped response or
stream message could fail an unrelated call with the same number.
---
 client.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index dc1b9a5..8034218 100644
--- a/client.go
+++ b/client.go
@@ -311,6 +311,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
+			c.deleteAsyncHandler(seq)
 			c.dropMessage(msg)
 			err = ErrClientReconnecting
 		}
@@ -682,16 +683,24 @@ func (c *Client) clearSession() {
 }
 
 func (c *Client) dropMessage(msg *Message) {
-	if !msg.IsAsync() {
-		session := c.deleteSession(msg.Seq())
-		if session != nil {
-			close(session.done)
+	// only a request's seq was registered by this side
+	if msg.Cmd() == CmdRequest {
+		if !msg.IsAsync() {
+			session := c.deleteSession(msg.Seq())
+			if session != nil {
+				close(session.done)
+			}
+		} else if ah, ok := c.getAndDeleteAsyncHandler(msg.Seq()); ok {
+			if ah.timer != nil {
+				ah.timer.Stop()
+			}
+			c.Handler.AsyncExecute(func() {
+				ah.handler(nil, ErrClientReconnecting)
+				putAsyncHandler(ah)
+			})
 		}
-		c.Handler.OnMessageDropped(c, msg)
-	} else {
-		c.deleteAsyncHandler(msg.Seq())
-		c.Handler.OnMessageDropped(c, msg)
 	}
+	c.Handler.OnMessageDropped(c, msg)
 }
 
 func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
-- 
2.43.0


From af6bbd53fee14295f023e10d81ff3a907f8274eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 10/60] fix: Restart waits for the stopped connection to be
 torn down

The old receive loop went on with the new connection, or tore it down.
---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 8034218..973504a 100644
--- a/client.go
+++ b/client.go
@@ -471,6 +471,9 @@ func (c *Client) PushMsg(msg *Message, timeout time.Duration) error {
 func (c *Client) Restart() error {
 	c.Stop()
 
+	// the stopped loops must be done before new ones use the same state
+	<-c.chClose
+
 	c.mux.Lock()
 	defer c.mux.Unlock()
 	if !c.running {
-- 
2.43.0


From 38d91b68e0340a93098d5b02d1d89ae969b3e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 11/60] fix: a duplicate response cannot block the reader

The session stayed registered after its response was delivered, so a
second response with the same number blocked the receive loop on the
full channel. Delivering now takes the session.
---
 client.go  | 7 -------
 handler.go | 4 ++--
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 973504a..76aa048 100644
--- a/client.go
+++ b/client.go
@@ -669,13 +669,6 @@ func (c *Client) deleteSession(seq uint64) *rpcSession {
 	return session
 }
 
-func (c *Client) getSession(seq uint64) (*rpcSession, bool) {
-	c.mux.Lock()
-	session, ok := c.sessionMap[seq]
-	c.mux.Unlock()
-	return session, ok
-}
-
 func (c *Client) clearSession() {
 	c.mux.Lock()
 	for _, sess := range c.sessionMap {
diff --git a/handler.go b/handler.go
index cf10395..e812747 100644
--- a/handler.go
+++ b/handler.go
@@ -758,8 +758,8 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 	case CmdResponse:
 		if !msg.IsAsync() {
 			seq := msg.Seq()
-			session, ok := c.getSession(seq)
-			if ok {
+			session := c.deleteSession(seq)
+			if session != nil {
 				session.done <- msg
 			} else {
 				h.OnSessionMiss(c, msg)
-- 
2.43.0


From 1679aeacd09e835634119a872deb47d4e064b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 12/60] fix: an accepted async call always has its callback
 registered

The timer could fire before the callback was registered, and a client
stopped at that moment never registered it, while the call succeeded.
---
 client.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 76aa048..84c16f0 100644
--- a/client.go
+++ b/client.go
@@ -283,7 +283,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	chTimer := make(chan time.Time, 1)
 	timerC := *(*<-chan time.Time)(unsafe.Pointer(&chTimer))
 	timer := &time.Timer{C: timerC}
-	timerCallback := time.AfterFunc(timeout, func() {
+	timerCallback := time.AfterFunc(TimeForever, func() {
 		ah, ok := c.getAndDeleteAsyncHandler(seq)
 		if ok {
 			if ah.timer != nil {
@@ -296,6 +296,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 	})
 	ah := getAsyncHandler(timerCallback, handler)
 	c.addAsyncHandler(seq, ah)
+	timerCallback.Reset(timeout)
 
 	if c.Handler.AsyncWrite() {
 		err = c.pushMessage(msg, timer)
@@ -701,9 +702,7 @@ func (c *Client) dropMessage(msg *Message) {
 
 func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
 	c.mux.Lock()
-	if c.running {
-		c.asyncHandlerMap[seq] = ah
-	}
+	c.asyncHandlerMap[seq] = ah
 	c.mux.Unlock()
 }
 
-- 
2.43.0


From 9bb10191054f2df754fb539a80eda8fbc843cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:17 +0000
Subject: [PATCH 13/60] fix: a panic in a connect or timeout callback is
 contained

These callbacks ran on bare goroutines, timers and the accept loop.
---
 client.go | 6 +++---
 server.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 84c16f0..b48d3b2 100644
--- a/client.go
+++ b/client.go
@@ -289,7 +289,7 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			if ah.timer != nil {
 				ah.timer.Stop()
 			}
-			ah.handler(nil, ErrTimeout)
+			util.Safe(func() { ah.handler(nil, ErrTimeout) })
 			putAsyncHandler(ah)
 		}
 		chTimer <- time.Now()
@@ -837,7 +837,7 @@ func (c *Client) recvLoop() {
 		}
 		c.closeAndClean()
 	} else {
-		go c.Handler.OnConnected(c)
+		go util.Safe(func() { c.Handler.OnConnected(c) })
 
 		for c.running {
 		RECV:
@@ -873,7 +873,7 @@ func (c *Client) recvLoop() {
 
 					log.Info("%v\t%v\tReconnected", c.Handler.LogTag(), addr)
 
-					go c.Handler.OnConnected(c)
+					go util.Safe(func() { c.Handler.OnConnected(c) })
 
 					goto RECV
 				}
diff --git a/server.go b/server.go
index 77627e8..6ca2009 100644
--- a/server.go
+++ b/server.go
@@ -196,7 +196,7 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
-				s.Handler.OnConnected(cli)
+				util.Safe(func() { s.Handler.OnConnected(cli) })
 			} else {
 				conn.Close()
 				s.subLoad()
-- 
2.43.0


From 10a4bd5db3a3d3af30591a0ea0b312b4b98eb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:18 +0000
Subject: [PATCH 14/60] fix: an async call reports its failure either to the
 caller or to the callback

A call timing out on a full queue returned an error and ran the
callback as well.
---
 client.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index b48d3b2..d57c799 100644
--- a/client.go
+++ b/client.go
@@ -312,15 +312,17 @@ func (c *Client) CallAsync(method string, req interface{}, handler AsyncHandlerF
 			}
 			c.Handler.OnMessageDone(c, msg)
 		} else {
-			c.deleteAsyncHandler(seq)
-			c.dropMessage(msg)
+			c.Handler.OnMessageDropped(c, msg)
 			err = ErrClientReconnecting
 		}
 	}
 
-	if err != nil && handler != nil {
-		c.deleteAsyncHandler(seq)
+	if err != nil {
 		timerCallback.Stop()
+		if !c.deleteAsyncHandler(seq) {
+			// the callback has been told already
+			err = nil
+		}
 	}
 
 	return err
@@ -706,7 +708,7 @@ func (c *Client) addAsyncHandler(seq uint64, ah *asyncHandler) {
 	c.mux.Unlock()
 }
 
-func (c *Client) deleteAsyncHandler(seq uint64) {
+func (c *Client) deleteAsyncHandler(seq uint64) bool {
 	c.mux.Lock()
 	ah, ok := c.asyncHandlerMap[seq]
 	if ok {
@@ -714,6 +716,7 @@ func (c *Client) deleteAsyncHandler(seq uint64) {
 		putAsyncHandler(ah)
 	}
 	c.mux.Unlock()
+	return ok
 }
 
 func (c *Client) getAndDeleteAsyncHandler(seq uint64) (*asyncHandler, bool) {
-- 
2.43.0


From a6104a71b35aad0ea8312ad1c8fda949e36563d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:18 +0000
Subject: [PATCH 15/60] fix: a client is registered before it can disconnect

A connection closed at once could be removed from the registry before
it was added, and stayed there for ever.
---
 client.go | 2 --
 server.go | 1 +
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/client.go b/client.go
index d57c799..84bd919 100644
--- a/client.go
+++ b/client.go
@@ -1014,8 +1014,6 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		c.chSend = make(chan *Message, handler.SendQueueSize())
 	}
 
-	c.run()
-
 	return c
 }
 
diff --git a/server.go b/server.go
index 6ca2009..f5aeeb9 100644
--- a/server.go
+++ b/server.go
@@ -196,6 +196,7 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
+				cli.run()
 				util.Safe(func() { s.Handler.OnConnected(cli) })
 			} else {
 				conn.Close()
-- 
2.43.0


From 06a38d676842f559298327b60929f57f6b728fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:18 +0000
Subject: [PATCH 16/60] fix: Abort stops chains of any length

---
 context.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 0f46bab..ef4eb21 100644
--- a/context.go
+++ b/context.go
@@ -5,7 +5,6 @@
 package arpc
 
 import (
-	"math"
 	"sync"
 	"time"
 )
@@ -122,7 +121,7 @@ func (ctx *Context) Next() {
 
 // Abort stops the one-by-one-calling of middlewares and method/router handler.
 func (ctx *Context) Abort() {
-	ctx.index = int(math.MaxInt8)
+	ctx.index = len(ctx.handlers)
 }
 
 // Deadline implements stdlib's Context.
-- 
2.43.0


From 18cc86ef4f2654db85864cbff9c00bde9c0f8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 17/60] fix: overstocked, dropped and unclaimed messages are
 always released

They were released only if a callback had been registered, and on a
cloned handler by the original's settings.
---
 handler.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/handler.go b/handler.go
index e812747..6d58ee6 100644
--- a/handler.go
+++ b/handler.go
@@ -370,33 +370,25 @@ func (h *handler) SetMaxReconnectTimes(n int) {
 }
 
 func (h *handler) HandleOverstock(onOverstock func(c *Client, m *Message)) {
-	h.onOverstock = func(c *Client, m *Message) {
-		if onOverstock != nil {
-			onOverstock(c, m)
-		}
-		h.OnMessageDone(c, m)
-	}
+	h.onOverstock = onOverstock
 }
 
 func (h *handler) OnOverstock(c *Client, m *Message) {
 	if h.onOverstock != nil {
 		h.onOverstock(c, m)
 	}
+	h.OnMessageDone(c, m)
 }
 
 func (h *handler) HandleMessageDropped(onMessageDropped func(c *Client, m *Message)) {
-	h.onMessageDropped = func(c *Client, m *Message) {
-		if onMessageDropped != nil {
-			onMessageDropped(c, m)
-		}
-		h.OnMessageDone(c, m)
-	}
+	h.onMessageDropped = onMessageDropped
 }
 
 func (h *handler) OnMessageDropped(c *Client, m *Message) {
 	if h.onMessageDropped != nil {
 		h.onMessageDropped(c, m)
 	}
+	h.OnMessageDone(c, m)
 }
 
 func (h *handler) HandleMessageDone(onMessageDone func(c *Client, m *Message)) {
@@ -416,8 +408,8 @@ func (h *handler) HandleSessionMiss(onSessionMiss func(c *Client, m *Message)) {
 func (h *handler) OnSessionMiss(c *Client, m *Message) {
 	if h.onSessionMiss != nil {
 		h.onSessionMiss(c, m)
-		h.OnMessageDone(c, m)
 	}
+	h.OnMessageDone(c, m)
 }
 
 func (h *handler) HandleContextDone(onContextDone func(ctx *Context)) {
-- 
2.43.0


From dfeccc2bbc932d6b9b865e1f9604515afc52e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 18/60] fix: a cloned handler uses its own receive buffer size

---
 handler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/handler.go b/handler.go
index 6d58ee6..0c6e74b 100644
--- a/handler.go
+++ b/handler.go
@@ -285,7 +285,7 @@ type handler struct {
 	append     func([]byte, ...byte) []byte
 	free       func([]byte)
 
-	wrapReader func(conn net.Conn) io.Reader
+	wrapReader func(h *handler, conn net.Conn) io.Reader
 
 	routes  map[string]*routerHandler
 	streams map[string]*streamHandler
@@ -464,13 +464,19 @@ func (h *handler) SetAsyncResponse(async bool) {
 
 func (h *handler) WrapReader(conn net.Conn) io.Reader {
 	if h.wrapReader != nil {
-		return h.wrapReader(conn)
+		return h.wrapReader(h, conn)
 	}
 	return conn
 }
 
 func (h *handler) SetReaderWrapper(wrapper func(conn net.Conn) io.Reader) {
-	h.wrapReader = wrapper
+	if wrapper == nil {
+		h.wrapReader = nil
+		return
+	}
+	h.wrapReader = func(_ *handler, conn net.Conn) io.Reader {
+		return wrapper(conn)
+	}
 }
 
 func (h *handler) RecvBufferSize() int {
@@ -916,7 +922,7 @@ func NewHandler() Handler {
 		streamQueueSize: 4,
 		maxBodyLen:      DefaultMaxBodyLen,
 	}
-	h.wrapReader = func(conn net.Conn) io.Reader {
+	h.wrapReader = func(h *handler, conn net.Conn) io.Reader {
 		return bufio.NewReaderSize(conn, h.recvBufferSize)
 	}
 	h.HandleConnected(func(cli *Client) {
-- 
2.43.0


From b9649646537548d270e3a3b2fc4eac646f76e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 19/60] fix: a directly written reply records its error and is
 released

Middleware saw no response error without the send queue.
---
 context.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/context.go b/context.go
index ef4eb21..e11a333 100644
--- a/context.go
+++ b/context.go
@@ -174,6 +174,9 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 	if _, ok := v.(error); ok {
 		isError = true
 	}
+	if isError {
+		ctx.responseErr = v
+	}
 	rsp := newMessage(CmdResponse, req.method(), v, isError, req.IsAsync(), req.Seq(), cli.Handler, cli.Codec, ctx.Message.values)
 	if !cli.reconnecting {
 		coders := cli.Handler.Coders()
@@ -184,6 +187,7 @@ func (ctx *Context) writeDirectly(v interface{}, isError bool) error {
 		if err != nil {
 			cli.Conn.Close()
 		}
+		cli.Handler.OnMessageDone(cli, rsp)
 		return err
 	}
 	cli.dropMessage(rsp)
-- 
2.43.0


From 987734c389181d9beaaa5c6ae236b55e84ce9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 20/60] fix: NewMessage honours its error and async arguments

---
 handler.go | 2 +-
 proto.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/handler.go b/handler.go
index 0c6e74b..2cfa151 100644
--- a/handler.go
+++ b/handler.go
@@ -885,7 +885,7 @@ func (h *handler) Cancel() {
 }
 
 func (h *handler) NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 func (h *handler) NewMessageWithBuffer(buffer []byte) *Message {
diff --git a/proto.go b/proto.go
index 2df77c3..c5ebac1 100644
--- a/proto.go
+++ b/proto.go
@@ -362,7 +362,7 @@ func (m *Message) Set(key interface{}, value interface{}) {
 
 // NewMessage creates a Message.
 func NewMessage(cmd byte, method string, v interface{}, isError bool, isAsync bool, seq uint64, h Handler, codec codec.Codec, values map[interface{}]interface{}) *Message {
-	return newMessage(cmd, method, v, false, false, seq, h, codec, values)
+	return newMessage(cmd, method, v, isError, isAsync, seq, h, codec, values)
 }
 
 // newMessage creates a Message.
-- 
2.43.0


From a879f0d8a66a4949b447797451d8f8850ec7ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:20 +0000
Subject: [PATCH 21/60] fix: a handler without any method still answers unknown
 calls

The caller waited until its timeout.
---
 handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/handler.go b/handler.go
index 2cfa151..a159aea 100644
--- a/handler.go
+++ b/handler.go
@@ -745,6 +745,12 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				ctx := newContext(c, msg, rh.handlers)
 				ctx.Next()
 				h.OnContextDone(ctx)
+			} else {
+				ctx := newContext(c, msg, nil)
+				if cmd == CmdRequest {
+					ctx.Error(ErrMethodNotFound)
+				}
+				h.OnContextDone(ctx)
 			}
 
 			if cmd == CmdRequest {
-- 
2.43.0


From 9eaa4727c1078a06ac240c711819536fe5ba1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:20 +0000
Subject: [PATCH 22/60] fix: a stream is closed for sending as soon as its
 close returns

CloseSend left the state to a goroutine, so a following Send was still
accepted, and concurrent closers could each send an end mark.
---
 stream.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stream.go b/stream.go
index e560bb4..c00bcba 100644
--- a/stream.go
+++ b/stream.go
@@ -52,7 +52,12 @@ func (s *Stream) CloseRecvContext(ctx context.Context) {
 }
 
 func (s *Stream) CloseSend() {
-	go s.CloseSendContext(context.Background())
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		go util.Safe(func() {
+			s.send(context.Background(), []byte{}, true)
+			s.halfClose()
+		})
+	}
 }
 
 func (s *Stream) CloseSendContext(ctx context.Context) {
@@ -136,7 +141,12 @@ func (s *Stream) SendAndCloseWith(ctx context.Context, v interface{}, args ...in
 }
 
 func (s *Stream) checkStateAndSend(ctx context.Context, v interface{}, eof bool, args ...interface{}) error {
-	if atomic.LoadInt32(&s.stateSend) == 1 {
+	if eof {
+		if !atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+			return ErrStreamClosedSend
+		}
+		defer s.halfClose()
+	} else if atomic.LoadInt32(&s.stateSend) == 1 {
 		return ErrStreamClosedSend
 	}
 	return s.send(ctx, v, eof, args...)
@@ -154,10 +164,6 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 	msg.SetStreamLocal(s.local)
 	msg.SetStreamEOF(eof)
 
-	if eof && atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
-		s.halfClose()
-	}
-
 	if c.Handler.AsyncWrite() {
 		select {
 		case c.chSend <- msg:
-- 
2.43.0


From 78927ff7a97dc358e6ffda15c0177bc91215d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:20 +0000
Subject: [PATCH 23/60] fix: a stream message not sent in time is released

---
 stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stream.go b/stream.go
index c00bcba..3fd916a 100644
--- a/stream.go
+++ b/stream.go
@@ -172,6 +172,7 @@ func (s *Stream) send(ctx context.Context, v interface{}, eof bool, args ...inte
 			c.Handler.OnMessageDone(c, msg)
 			return ErrClientStopped
 		case <-ctx.Done():
+			c.Handler.OnMessageDone(c, msg)
 			return ErrTimeout
 		}
 	} else {
-- 
2.43.0


From b0746b5fc83507d058aa19fd1b93c902c308820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:37 +0000
Subject: [PATCH 24/60] fix: a client stopped while redialing does not keep the
 new connection

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 84bd919..f476b21 100644
--- a/client.go
+++ b/client.go
@@ -868,7 +868,15 @@ func (c *Client) recvLoop() {
 				log.Info("%v\t%v\tReconnect Trying %v", c.Handler.LogTag(), addr, i)
 				conn, err := c.Dialer()
 				if err == nil {
+					c.mux.Lock()
+					if !c.running {
+						// stopped while dialing, nobody else knows this connection
+						c.mux.Unlock()
+						conn.Close()
+						break
+					}
 					c.Conn = conn
+					c.mux.Unlock()
 
 					c.initReader()
 
-- 
2.43.0


From 55387d76a29caf6bb3d6d5a465c9e6d06f162a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:48 +0000
Subject: [PATCH 25/60] fix: Restart does not forget async calls that still
 await their callback

---
 client.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/client.go b/client.go
index f476b21..9992bc4 100644
--- a/client.go
+++ b/client.go
@@ -491,7 +491,6 @@ func (c *Client) Restart() error {
 		c.chSend = make(chan *Message, c.Handler.SendQueueSize())
 		c.chClose = make(chan util.Empty)
 		c.sessionMap = make(map[uint64]*rpcSession)
-		c.asyncHandlerMap = make(map[uint64]*asyncHandler)
 		c.streamLocalMap = make(map[uint64]*Stream)
 		c.streamRemoteMap = make(map[uint64]*Stream)
 		c.values = map[interface{}]interface{}{}
-- 
2.43.0


From 24e0e08c9e640227ae4f48998aff4bd72d5c92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:16 +0000
Subject: [PATCH 26/60] fix: clean up a connection whose read loop ends by a
 panicking user hook

---
 client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 9992bc4..5ab27de 100644
--- a/client.go
+++ b/client.go
@@ -828,6 +828,9 @@ func (c *Client) recvLoop() {
 	log.Debug("%v\t%v\trecvLoop start", c.Handler.LogTag(), addr)
 	defer log.Debug("%v\t%v\trecvLoop stop", c.Handler.LogTag(), addr)
 
+	// also when a user hook panics
+	defer c.closeAndClean()
+
 	if c.Dialer == nil {
 		for c.running {
 			msg, err = c.Handler.Recv(c)
@@ -837,7 +840,6 @@ func (c *Client) recvLoop() {
 			}
 			c.Handler.OnMessage(c, msg)
 		}
-		c.closeAndClean()
 	} else {
 		go util.Safe(func() { c.Handler.OnConnected(c) })
 
@@ -892,7 +894,6 @@ func (c *Client) recvLoop() {
 			}
 			break
 		}
-		c.closeAndClean()
 	}
 }
 
-- 
2.43.0


From fa619dfe1c11e2c073cf61744700a51c069b69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:48 +0000
Subject: [PATCH 27/60] fix: a panicking reader wrapper must not end the
 server's accept loop

---
 server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index f5aeeb9..068621b 100644
--- a/server.go
+++ b/server.go
@@ -172,6 +172,18 @@ func (s *Server) clearClients() {
 	s.mux.Unlock()
 }
 
+// start runs an accepted client, a panicking reader wrapper only costs that client.
+func (s *Server) start(cli *Client) (started bool) {
+	defer util.Recover()
+	defer func() {
+		if !started {
+			cli.closeAndClean()
+		}
+	}()
+	cli.run()
+	return true
+}
+
 func (s *Server) runLoop() error {
 	var (
 		err  error
@@ -196,8 +208,9 @@ func (s *Server) runLoop() error {
 					s.subLoad()
 				})
 				s.addClient(cli)
-				cli.run()
-				util.Safe(func() { s.Handler.OnConnected(cli) })
+				if s.start(cli) {
+					util.Safe(func() { s.Handler.OnConnected(cli) })
+				}
 			} else {
 				conn.Close()
 				s.subLoad()
-- 
2.43.0


From 1a147225c147cb6da3607f936946e215f3d16bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 28/60] fix: a publication is retained once for every
 subscriber it is queued to (C13)

---
 extension/pubsub/topic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7050f7a..db3ef5e 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -94,8 +94,10 @@ func (t *TopicAgent) Delete(c *arpc.Client) {
 // Publish .
 func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
@@ -116,8 +118,10 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 // PublishToOne .
 func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
+		msg.Retain()
 		err := to.PushMsg(msg, arpc.TimeZero)
 		if err != nil {
 			if from != nil {
-- 
2.43.0


From d37966ceec8c6c8929ebafd09b75d27bcab314ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 29/60] fix: a topic handler runs without the subscription lock
 held (C12/C29/C10)

---
 extension/pubsub/client.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index 400d781..b969c54 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -181,11 +181,10 @@ func (c *Client) onPublish(ctx *arpc.Context) {
 
 	if c.onPublishHandler == nil {
 		c.psmux.Lock()
-		if h, ok := c.topicHandlerMap[topic.Name]; ok {
+		h, ok := c.topicHandlerMap[topic.Name]
+		c.psmux.Unlock()
+		if ok {
 			h(topic)
-			c.psmux.Unlock()
-		} else {
-			c.psmux.Unlock()
 		}
 	} else {
 		c.onPublishHandler(topic)
-- 
2.43.0


From 5bd794e1fb7669a1b136ffdcb285e02497669ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 30/60] fix: a topic name longer than the message is refused
 (C28)

---
 extension/pubsub/topic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index db3ef5e..7e4f6f9 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -51,6 +51,9 @@ func (tp *Topic) fromBytes(data []byte) error {
 	if nameLen == 0 || nameLen > MaxTopicNameLen {
 		return ErrInvalidTopicNameLength
 	}
+	if nameLen > len(data)-10 {
+		return ErrInvalidTopicBytes
+	}
 	tp.Timestamp = int64(binary.LittleEndian.Uint64(data[len(data)-8:]))
 	tp.Name = string(data[len(data)-nameLen-10 : len(data)-10])
 	tp.Data = data[:len(data)-nameLen-10]
-- 
2.43.0


From fcafd7c890ec22b4d81dade2ef96d9c0ac27d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:28 +0000
Subject: [PATCH 31/60] fix: encoding a topic does not write into the caller's
 spare capacity (C28)

---
 extension/pubsub/topic.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 7e4f6f9..f3e15aa 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -37,8 +37,7 @@ func (tp *Topic) toBytes() ([]byte, error) {
 	binary.LittleEndian.PutUint16(tail[nameLen:], nameLen)
 	binary.LittleEndian.PutUint64(tail[nameLen+2:], uint64(tp.Timestamp))
 	dataLen := len(tp.Data)
-	tp.Data = append(tp.Data, tail...)
-	tp.raw = tp.Data
+	tp.raw = append(tp.Data[:dataLen:dataLen], tail...)
 	tp.Data = tp.raw[:dataLen]
 	return tp.raw, nil
 }
-- 
2.43.0


From 2ee4243050b64e0d93495029fb4f8c770d59786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 32/60] fix: a client's topic list and the topic's members
 change together (C27)

---
 extension/pubsub/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 94a2717..999c533 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -119,8 +119,8 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
 			cts.topicAgents[topicName] = tp
-			cts.mux.Unlock()
 			tp.Add(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Subscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), topicName, ctx.Client.Conn.RemoteAddr())
 		} else {
@@ -158,8 +158,8 @@ func (s *Server) onUnsubscribe(ctx *arpc.Context) {
 		cts.mux.Lock()
 		if ta, ok := cts.topicAgents[topicName]; ok {
 			delete(cts.topicAgents, topicName)
-			cts.mux.Unlock()
 			ta.Delete(ctx.Client)
+			cts.mux.Unlock()
 			ctx.Write(nil)
 			log.Info("%v [Unsubscribe] [topic: '%v'] success from\t%v", s.Handler.LogTag(), ta.Name, ctx.Client.Conn.RemoteAddr())
 		} else {
-- 
2.43.0


From 2d92c8c41a0e98b2852192d80c282d28a173f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 33/60] fix: authenticating again keeps the client's
 subscriptions (C27)

---
 extension/pubsub/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 999c533..0812bb7 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -250,6 +250,11 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 
 // addClient .
 func (s *Server) addClient(c *arpc.Client) {
+	s.psmux.Lock()
+	defer s.psmux.Unlock()
+	if _, ok := c.Get(userTopicKey); ok {
+		return
+	}
 	c.Set(userTopicKey, &clientTopics{
 		topicAgents: map[string]*TopicAgent{},
 	})
-- 
2.43.0


From 2add7800d4ad632944bf59823d477917a0303b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:18 +0000
Subject: [PATCH 34/60] fix: a subscription racing the disconnect leaves no
 stale member (C27)

---
 extension/pubsub/server.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/extension/pubsub/server.go b/extension/pubsub/server.go
index 0812bb7..4aed45d 100644
--- a/extension/pubsub/server.go
+++ b/extension/pubsub/server.go
@@ -22,6 +22,7 @@ const (
 
 type clientTopics struct {
 	mux         sync.RWMutex
+	closed      bool
 	topicAgents map[string]*TopicAgent
 }
 
@@ -115,6 +116,11 @@ func (s *Server) onSubscribe(ctx *arpc.Context) {
 		}
 		cts := topics.(*clientTopics)
 		cts.mux.Lock()
+		if cts.closed {
+			cts.mux.Unlock()
+			ctx.Error(arpc.ErrClientStopped)
+			return
+		}
 		tp, ok := cts.topicAgents[topicName]
 		if !ok {
 			tp = s.getOrMakeTopic(topicName)
@@ -252,7 +258,7 @@ func (s *Server) getOrMakeTopic(topic string) *TopicAgent {
 func (s *Server) addClient(c *arpc.Client) {
 	s.psmux.Lock()
 	defer s.psmux.Unlock()
-	if _, ok := c.Get(userTopicKey); ok {
+	if _, ok := c.Get(userTopicKey); ok || c.CheckState() != nil {
 		return
 	}
 	c.Set(userTopicKey, &clientTopics{
@@ -261,7 +267,9 @@ func (s *Server) addClient(c *arpc.Client) {
 }
 
 func (s *Server) deleteClient(c *arpc.Client) {
+	s.psmux.RLock()
 	topics, ok := c.Get(userTopicKey)
+	s.psmux.RUnlock()
 	if !ok {
 		return
 	}
@@ -269,8 +277,9 @@ func (s *Server) deleteClient(c *arpc.Client) {
 	defer util.Recover()
 
 	cts := topics.(*clientTopics)
-	cts.mux.RLock()
-	defer cts.mux.RUnlock()
+	cts.mux.Lock()
+	defer cts.mux.Unlock()
+	cts.closed = true
 	for _, tp := range cts.topicAgents {
 		tp.Delete(c)
 		log.Info("%v [Disconnected Unsubscribe] [topic: '%v'] from\t%v", s.Handler.LogTag(), tp.Name, c.Conn.RemoteAddr())
-- 
2.43.0


From a72fb45a2ba8e204a839ab86339dfbbff8794b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:18 +0000
Subject: [PATCH 35/60] fix: a cancelled subscription is not retried after
 reconnecting (C29)

---
 extension/pubsub/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extension/pubsub/client.go b/extension/pubsub/client.go
index b969c54..9b1f9f4 100644
--- a/extension/pubsub/client.go
+++ b/extension/pubsub/client.go
@@ -148,6 +148,12 @@ func (c *Client) initTopics() {
 		topicName := name
 		go util.Safe(func() {
 			for i := 0; i < 10; i++ {
+				c.psmux.Lock()
+				_, ok := c.topicHandlerMap[topicName]
+				c.psmux.Unlock()
+				if !ok {
+					return
+				}
 				topic, _ := newTopic(topicName, util.ValueToBytes(c.Codec, nil))
 				bs, _ := topic.toBytes()
 				err := c.Call(routeSubscribe, bs, nil, time.Second*10)
-- 
2.43.0


From e1c9b997a8eaab0d401e41c35dfacbee8dec7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 36/60] fix: a graceful shutdown starts no further handler and
 misses none (C31)

---
 extension/middleware/router/graceful.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/extension/middleware/router/graceful.go b/extension/middleware/router/graceful.go
index 4276dbd..fb4b8e8 100644
--- a/extension/middleware/router/graceful.go
+++ b/extension/middleware/router/graceful.go
@@ -13,26 +13,40 @@ var ErrShutdown = errors.New("shutting down")
 
 // Graceful represents a graceful middleware instance.
 type Graceful struct {
+	mux        sync.Mutex
 	shutdown   bool
 	gracefulWg sync.WaitGroup
 }
 
+// enter registers a request unless the shutdown has begun.
+func (g *Graceful) enter() bool {
+	g.mux.Lock()
+	defer g.mux.Unlock()
+	if g.shutdown {
+		return false
+	}
+	g.gracefulWg.Add(1)
+	return true
+}
+
 // Handler returns the graceful middleware handler.
 func (g *Graceful) Handler() arpc.HandlerFunc {
 	return func(ctx *arpc.Context) {
-		if !g.shutdown {
-			g.gracefulWg.Add(1)
+		if g.enter() {
 			defer g.gracefulWg.Done()
 			ctx.Next()
 		} else {
 			ctx.Error(ErrShutdown)
+			ctx.Abort()
 		}
 	}
 }
 
 // Shutdown stops handling new requests and waits for all current requests to be processed.
 func (g *Graceful) Shutdown() {
+	g.mux.Lock()
 	g.shutdown = true
+	g.mux.Unlock()
 	g.gracefulWg.Wait()
 	time.Sleep(time.Second / 10)
 }
-- 
2.43.0


From c5c5cb658e6ef07b7a3089e2ff87e0050a79ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 37/60] fix: the appender marks a message only if it appended a
 value (C30)

---
 extension/middleware/coder/appender.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 5f94bc1..9398c5e 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -23,11 +23,11 @@ func (ap *Appender) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 	if !ok {
 		return msg
 	}
-	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
+	valueData, err := ap.valueToBytes(value)
+	if err != nil || len(key)+len(valueData)+2 > 0xFFFF {
 		return msg
 	}
-	valueData, err := ap.valueToBytes(value)
-	if err != nil {
+	if err := msg.SetFlagBit(ap.FlagBitIndex, true); err != nil {
 		return msg
 	}
 	msg.Buffer = append(msg.Buffer, make([]byte, len(key)+len(valueData)+2)...)
-- 
2.43.0


From f9a3b062e42a64e567549ebfc2a6d3822f63d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 38/60] fix: the appender ignores a length that does not fit
 the message (C30)

---
 extension/middleware/coder/appender.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/extension/middleware/coder/appender.go b/extension/middleware/coder/appender.go
index 9398c5e..3a6c045 100644
--- a/extension/middleware/coder/appender.go
+++ b/extension/middleware/coder/appender.go
@@ -47,15 +47,16 @@ func (ap *Appender) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 		if bufLen > 2 && ap.bytesToValue != nil {
 			key := ap.AppenderName
 			appendLen := (int(msg.Buffer[bufLen-2]) << 8) | int(msg.Buffer[bufLen-1])
-			if bufLen >= appendLen {
-				appenderName := util.BytesToStr(msg.Buffer[bufLen-appendLen : bufLen-appendLen+len(key)])
-				if appenderName != key {
-					return msg
-				}
-				payloadBody := msg.Buffer[bufLen-appendLen+len(appenderName) : bufLen-2]
-				if value, err := ap.bytesToValue(payloadBody); err == nil {
-					msg.Set(key, value)
-				}
+			if appendLen < len(key)+2 || appendLen > bufLen-arpc.HeadLen {
+				return msg
+			}
+			appenderName := util.BytesToStr(msg.Buffer[bufLen-appendLen : bufLen-appendLen+len(key)])
+			if appenderName != key {
+				return msg
+			}
+			payloadBody := msg.Buffer[bufLen-appendLen+len(appenderName) : bufLen-2]
+			if value, err := ap.bytesToValue(payloadBody); err == nil {
+				msg.Set(key, value)
 			}
 			msg.Buffer = msg.Buffer[:len(msg.Buffer)-appendLen]
 			msg.SetFlagBit(ap.FlagBitIndex, false)
-- 
2.43.0


From cd48f3b979d98781f150ca59da2200877ca15cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 39/60] fix: a compressed frame shorter than its header is not
 unpacked (C30)

---
 extension/middleware/coder/gzip/gzip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/middleware/coder/gzip/gzip.go b/extension/middleware/coder/gzip/gzip.go
index fc7c39e..961e890 100644
--- a/extension/middleware/coder/gzip/gzip.go
+++ b/extension/middleware/coder/gzip/gzip.go
@@ -53,7 +53,7 @@ func (g *Gzip) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
 func (g *Gzip) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
 	if msg.IsFlagBitSet(coder.FlagBitGZip) {
 		buf, err := gzipUnCompress(msg.Buffer[arpc.HeaderIndexReserved+1:])
-		if err == nil {
+		if err == nil && len(buf) >= arpc.HeadLen-arpc.HeaderIndexReserved-1 {
 			msg.Buffer = append(msg.Buffer[:arpc.HeaderIndexReserved+1], buf...)
 			msg.SetFlagBit(coder.FlagBitGZip, false)
 			msg.SetBodyLen(len(msg.Buffer) - 16)
-- 
2.43.0


From 337f83f17e220cbc2260f90fbb18567a3a28b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:17 +0000
Subject: [PATCH 40/60] fix: unpacking survives any method length and leaves a
 failed message unchanged (C30)

---
 extension/middleware/coder/msgpack/msgpack.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extension/middleware/coder/msgpack/msgpack.go b/extension/middleware/coder/msgpack/msgpack.go
index 4888d48..56f8c77 100644
--- a/extension/middleware/coder/msgpack/msgpack.go
+++ b/extension/middleware/coder/msgpack/msgpack.go
@@ -15,6 +15,9 @@ type MsgPack int
 
 // Encode implements arpc MessageCoder.
 func (mp *MsgPack) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
+	if len(msg.Buffer) < arpc.HeadLen+msg.MethodLen() {
+		return msg
+	}
 	body := msg.Data()
 	v := &mpkv{
 		Body:   body,
@@ -33,10 +36,10 @@ func (mp *MsgPack) Encode(client *arpc.Client, msg *arpc.Message) *arpc.Message
 
 // Decode implements arpc MessageCoder.
 func (mp *MsgPack) Decode(client *arpc.Client, msg *arpc.Message) *arpc.Message {
-	v := &mpkv{
-		Body:   msg.Data(),
-		Values: msg.Values(),
+	if len(msg.Buffer) < arpc.HeadLen+msg.MethodLen() {
+		return msg
 	}
+	v := &mpkv{}
 	err := msgpack.Unmarshal(msg.Data(), v)
 	if err == nil {
 		ml := msg.MethodLen()
-- 
2.43.0


From df8cb0ac0257c2b3bb10d844041dc3ce1edfa209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 41/60] fix: the lookup cursor is only moved under the
 exclusive lock (C11/C32)

---
 extension/micro/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index cfd0cc8..fc1d095 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -86,8 +86,8 @@ func (list *serviceNodeList) delete(addr string) {
 }
 
 func (list *serviceNodeList) next() (*arpc.Client, error) {
-	list.mux.RLock()
-	defer list.mux.RUnlock()
+	list.mux.Lock()
+	defer list.mux.Unlock()
 	l := len(list.nodes)
 	if l == 0 {
 		return nil, ErrServiceNotFound
-- 
2.43.0


From 312ee02aab342e9c53508bf4d7b6448d6a435c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 42/60] fix: adding a known service node again leaks no
 connection (C32)

---
 extension/micro/service.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index fc1d095..7c2f711 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -42,16 +42,17 @@ type serviceNodeList struct {
 	nodes []*ServiceNode
 }
 
-func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) {
+func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 	for _, v := range list.nodes {
 		// addr already added
 		if v.addr == addr {
-			return
+			return false
 		}
 	}
 	list.nodes = append(list.nodes, nodes...)
+	return true
 }
 
 func (list *serviceNodeList) update(node *ServiceNode) {
@@ -108,7 +109,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -116,7 +117,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	list.addByAddr(addr, nodes)
+	return list.addByAddr(addr, nodes)
 }
 
 func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
@@ -154,7 +155,13 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	})
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
-		s.setServiceNode(name, addr, nodes)
+	}
+	if !s.setServiceNode(name, addr, nodes) {
+		// addr already added
+		if client != nil {
+			client.Stop()
+		}
+		return
 	}
 	if err == nil {
 		log.Info("AddServiceNodes: [%v, %v, %v, %v]", app, name, addr, weight)
-- 
2.43.0


From 5475733f6bb0f0f66746fe456a442ebb8c7f2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 43/60] fix: a retried service node is only changed under the
 list's lock (C11/C32)

---
 extension/micro/service.go | 46 +++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/extension/micro/service.go b/extension/micro/service.go
index 7c2f711..d1e04ac 100644
--- a/extension/micro/service.go
+++ b/extension/micro/service.go
@@ -55,21 +55,25 @@ func (list *serviceNodeList) addByAddr(addr string, nodes []*ServiceNode) bool {
 	return true
 }
 
-func (list *serviceNodeList) update(node *ServiceNode) {
-	var found = false
+func (list *serviceNodeList) update(nodes []*ServiceNode, client *arpc.Client) {
 	list.mux.Lock()
 	defer list.mux.Unlock()
 
-	for _, v := range list.nodes {
-		if v == node {
-			found = true
-		}
+	if nodes[0].shutdown {
+		client.Stop()
+		return
 	}
-	if !found {
-		node.client.Stop()
+	for _, v := range nodes {
+		v.client = client
 	}
 }
 
+func (list *serviceNodeList) removed(node *ServiceNode) bool {
+	list.mux.RLock()
+	defer list.mux.RUnlock()
+	return node.shutdown
+}
+
 func (list *serviceNodeList) delete(addr string) {
 	list.mux.Lock()
 	defer list.mux.Unlock()
@@ -109,7 +113,7 @@ type serviceManager struct {
 	serviceList map[string]*serviceNodeList
 }
 
-func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) bool {
+func (s *serviceManager) setServiceNode(name string, addr string, nodes []*ServiceNode) (*serviceNodeList, bool) {
 	s.mux.Lock()
 	list, ok := s.serviceList[name]
 	if !ok {
@@ -117,18 +121,7 @@ func (s *serviceManager) setServiceNode(name string, addr string, nodes []*Servi
 		s.serviceList[name] = list
 	}
 	s.mux.Unlock()
-	return list.addByAddr(addr, nodes)
-}
-
-func (s *serviceManager) updateServiceNode(name string, node *ServiceNode) {
-	s.mux.Lock()
-	list, ok := s.serviceList[name]
-	s.mux.Unlock()
-	if ok {
-		list.update(node)
-	} else {
-		node.client.Stop()
-	}
+	return list, list.addByAddr(addr, nodes)
 }
 
 // AddServiceNodes add nodes by path's addr and weight/value, would be called by a Discovery when service was setted
@@ -156,7 +149,8 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 	for i := 0; i < weight; i++ {
 		nodes[i].client = client
 	}
-	if !s.setServiceNode(name, addr, nodes) {
+	list, ok := s.setServiceNode(name, addr, nodes)
+	if !ok {
 		// addr already added
 		if client != nil {
 			client.Stop()
@@ -170,7 +164,7 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 
 		go util.Safe(func() {
 			i := 0
-			for !nodes[0].shutdown {
+			for !list.removed(nodes[0]) {
 				i++
 				time.Sleep(time.Second)
 				log.Info("AddServiceNodes: [%v, %v, %v, %v] retrying %v...", app, name, addr, weight, i)
@@ -179,11 +173,7 @@ func (s *serviceManager) AddServiceNodes(path string, value string) {
 				})
 				if err == nil {
 					time.Sleep(time.Second / 100)
-					for i := 0; i < weight; i++ {
-						nodes[i].client = client
-						s.updateServiceNode(name, nodes[i])
-					}
-
+					list.update(nodes, client)
 					return
 				}
 				log.Info("AddServiceNodes [%v, %v, %v, %v] retrying %v failed: %v", app, name, addr, weight, i, err)
-- 
2.43.0


From b59fa346f27b93016997904ec4952e853c2781a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 44/60] fix: a failed directory read drops no service node
 (C32)

---
 extension/micro/redis/discovery.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extension/micro/redis/discovery.go b/extension/micro/redis/discovery.go
index 7520020..9d6472b 100644
--- a/extension/micro/redis/discovery.go
+++ b/extension/micro/redis/discovery.go
@@ -31,6 +31,7 @@ func (ds *Discovery) updateServices() error {
 	err := ret.Err()
 	if err != nil {
 		log.Error("Discovery updateServices failed: %v", err)
+		return err
 	}
 
 	cache := map[string]struct{}{}
-- 
2.43.0


From 25f702342b3e50c51df6a51057260c336df3dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 45/60] fix: a stopped registration is not renewed any more
 (C32)

---
 extension/micro/redis/register.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/micro/redis/register.go b/extension/micro/redis/register.go
index e2d97bc..5b83ae4 100644
--- a/extension/micro/redis/register.go
+++ b/extension/micro/redis/register.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	redis "github.com/go-redis/redis/v8"
@@ -18,6 +19,7 @@ type Register struct {
 	weight           int
 	field            string
 	done             chan struct{}
+	stopOnce         sync.Once
 	interval         time.Duration
 	expire           time.Duration
 	client           *redis.Client
@@ -40,6 +42,7 @@ func (s *Register) keepalive() {
 
 // Stop .
 func (s *Register) Stop() error {
+	s.stopOnce.Do(func() { close(s.done) })
 	ret := s.client.HDel(context.Background(), s.serviceNamespace, s.field)
 	err := ret.Err()
 	if err != nil {
-- 
2.43.0


From 3139d54d6d433759114f0cadd9749dd4ec15ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 46/60] fix: registering an existing key reports an error (C32)

---
 extension/micro/etcd/register.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extension/micro/etcd/register.go b/extension/micro/etcd/register.go
index 5f08d49..98c7c93 100644
--- a/extension/micro/etcd/register.go
+++ b/extension/micro/etcd/register.go
@@ -2,6 +2,7 @@ package etcd
 
 import (
 	"context"
+	"errors"
 	"time"
 
 	"github.com/lesismal/arpc/log"
@@ -13,6 +14,9 @@ import (
 // RegisterMutexPrefix .
 const RegisterMutexPrefix = "_arpc_micro_reg_mux_pfx"
 
+// ErrAlreadyExists is returned when the key is registered already.
+var ErrAlreadyExists = errors.New("service already exists")
+
 //Register .
 type Register struct {
 	key         string
@@ -81,7 +85,8 @@ func NewRegister(endpoints []string, key string, value string, ttl int64) (*Regi
 	}
 	if len(resGet.Kvs) > 0 {
 		log.Error("NewRegister [%v, %v] failed: already exists", key, value)
-		return nil, err
+		client.Close()
+		return nil, ErrAlreadyExists
 	}
 
 	// step 3: set kv
-- 
2.43.0


From 02e0b198c650899b1b6903774e75cac4c8128457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:45 +0000
Subject: [PATCH 47/60] fix: a websocket connection may be written concurrently
 (C33)

---
 extension/protocol/websocket/websocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/protocol/websocket/websocket.go b/extension/protocol/websocket/websocket.go
index 31a9ee4..ddd833f 100644
--- a/extension/protocol/websocket/websocket.go
+++ b/extension/protocol/websocket/websocket.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"net"
 	"net/http"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -76,6 +77,7 @@ type Conn struct {
 	*websocket.Conn
 	chHandler chan func()
 	buffer    []byte
+	wmux      sync.Mutex
 }
 
 // HandleWebsocket .
@@ -111,6 +113,8 @@ func (c *Conn) Read(b []byte) (int, error) {
 
 // Write .
 func (c *Conn) Write(b []byte) (int, error) {
+	c.wmux.Lock()
+	defer c.wmux.Unlock()
 	err := c.WriteMessage(websocket.BinaryMessage, b)
 	if err == nil {
 		return len(b), nil
-- 
2.43.0


From 8c5a5f086e6d57fb0b11ae6223bf6aebc38e0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:56 +0000
Subject: [PATCH 48/60] fix: closing a quic connection releases a blocked read
 (C33)

---
 extension/protocol/quic/quic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index ceb19e1..482e495 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -39,6 +39,13 @@ type Conn struct {
 	quic.Stream
 }
 
+// Close closes the stream in both directions: data already written is still
+// delivered and a blocked Read is released.
+func (c *Conn) Close() error {
+	c.Stream.CancelRead(0)
+	return c.Stream.Close()
+}
+
 // Listen wraps quic listen
 func Listen(addr string, config *tls.Config) (net.Listener, error) {
 	ln, err := quic.ListenAddr(addr, config, nil)
-- 
2.43.0


From fa8a7f348413fb7ab151e4643cb24542650d3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:56 +0000
Subject: [PATCH 49/60] fix: a quic connection without a stream does not end
 the listener (C33)

---
 extension/protocol/quic/quic.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/extension/protocol/quic/quic.go b/extension/protocol/quic/quic.go
index 482e495..8fe85f5 100644
--- a/extension/protocol/quic/quic.go
+++ b/extension/protocol/quic/quic.go
@@ -20,17 +20,21 @@ type Listener struct {
 
 // Accept waits for and returns the next connection to the listener.
 func (ln *Listener) Accept() (net.Conn, error) {
-	conn, err := ln.Listener.Accept(context.Background())
-	if err != nil {
-		return nil, err
-	}
+	for {
+		conn, err := ln.Listener.Accept(context.Background())
+		if err != nil {
+			return nil, err
+		}
 
-	stream, err := conn.AcceptStream(context.Background())
-	if err != nil {
-		return nil, err
-	}
+		stream, err := conn.AcceptStream(context.Background())
+		if err != nil {
+			// only this connection is unusable, not the listener
+			conn.CloseWithError(0, "")
+			continue
+		}
 
-	return &Conn{conn, stream}, err
+		return &Conn{conn, stream}, nil
+	}
 }
 
 // Conn wraps quick.Session to net.Conn
@@ -73,6 +77,7 @@ func Dial(addr string, tlsConf *tls.Config, quicConf *quic.Config, timeout time.
 
 	stream, err := session.OpenStreamSync(ctx)
 	if err != nil {
+		session.CloseWithError(0, "")
 		return nil, err
 	}
 
-- 
2.43.0


From 1d25a9b6f41131362a10f5d5cea9dee695f3b851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:15 +0000
Subject: [PATCH 50/60] fix: a remote stream keeps the id its peer gave it
 (C23)

---
 stream.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stream.go b/stream.go
index 3fd916a..ce837f9 100644
--- a/stream.go
+++ b/stream.go
@@ -204,13 +204,10 @@ func (s *Stream) halfClose() {
 
 // NewStream creates a stream.
 func (client *Client) NewStream(method string) *Stream {
-	return client.newStream(method, 0, true)
+	return client.newStream(method, atomic.AddUint64(&client.seq, 1), true)
 }
 
 func (client *Client) newStream(method string, id uint64, local bool) *Stream {
-	if id == 0 {
-		id = atomic.AddUint64(&client.seq, 1)
-	}
 	stream := &Stream{
 		id:     id,
 		cli:    client,
-- 
2.43.0


From 6a52199c96514493d416fce87f066e0cc5a66d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:29 +0000
Subject: [PATCH 51/60] fix: a broadcast passes the coders once per receiver,
 not repeatedly (C15/C24)

---
 server.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/server.go b/server.go
index 068621b..f5ffc73 100644
--- a/server.go
+++ b/server.go
@@ -60,6 +60,17 @@ func (s *Server) Run(addr string) error {
 	return s.runLoop()
 }
 
+// offer queues a broadcast to one client; the message is shared unless coders,
+// which transform it in place for every receiver, make it private.
+func (s *Server) offer(c *Client, msg *Message, method string, v interface{}, args ...interface{}) {
+	if len(c.Handler.Coders()) > 0 {
+		msg = s.NewMessage(CmdNotify, method, v, args...)
+	} else {
+		msg.Retain()
+	}
+	c.PushMsg(msg, TimeZero)
+}
+
 func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	msg := s.NewMessage(CmdNotify, method, v, args...)
 	s.mux.Lock()
@@ -69,8 +80,7 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	}()
 
 	for c := range s.clients {
-		msg.Retain()
-		c.PushMsg(msg, TimeZero)
+		s.offer(c, msg, method, v, args...)
 	}
 }
 
@@ -84,8 +94,7 @@ func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-			msg.Retain()
-			c.PushMsg(msg, TimeZero)
+			s.offer(c, msg, method, v, args...)
 		}
 	}
 }
-- 
2.43.0


From bb5704350e30e6b8ed50ddb5fa123957c6993118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:29 +0000
Subject: [PATCH 52/60] fix: a publication passes the coders once per
 subscriber (C15/C27)

---
 extension/pubsub/topic.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index f3e15aa..3c662c2 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -99,8 +99,7 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		msg.Retain()
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := s.push(to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[Publish] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
@@ -123,8 +122,7 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	defer msg.Release()
 	t.mux.RLock()
 	for to := range t.clients {
-		msg.Retain()
-		err := to.PushMsg(msg, arpc.TimeZero)
+		err := s.push(to, msg, topic)
 		if err != nil {
 			if from != nil {
 				log.Error("[PublishToOne] [topic: '%v'] failed %v, from\t%v\tto\t%v", topic.Name, err, from.Conn.RemoteAddr(), to.Conn.RemoteAddr())
@@ -143,6 +141,17 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	t.mux.RUnlock()
 }
 
+// push queues a publication to one subscriber; the message is shared unless coders,
+// which transform it in place for every receiver, make it private.
+func (s *Server) push(to *arpc.Client, msg *arpc.Message, topic *Topic) error {
+	if len(to.Handler.Coders()) > 0 {
+		msg = s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
+	} else {
+		msg.Retain()
+	}
+	return to.PushMsg(msg, arpc.TimeZero)
+}
+
 func newTopicAgent(topic string) *TopicAgent {
 	return &TopicAgent{
 		Name:    topic,
-- 
2.43.0


From 32c6da781b68cf0c6ad7665995a8b5205d15ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 53/60] fix: no lock stays held when a hook panics during a
 broadcast or publication (C10/C12)

---
 extension/pubsub/topic.go |  4 ++--
 server.go                 | 12 ++++--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/extension/pubsub/topic.go b/extension/pubsub/topic.go
index 3c662c2..16b37ea 100644
--- a/extension/pubsub/topic.go
+++ b/extension/pubsub/topic.go
@@ -98,6 +98,7 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	defer msg.Release()
 	t.mux.RLock()
+	defer t.mux.RUnlock()
 	for to := range t.clients {
 		err := s.push(to, msg, topic)
 		if err != nil {
@@ -108,7 +109,6 @@ func (t *TopicAgent) Publish(s *Server, from *arpc.Client, topic *Topic) {
 			}
 		}
 	}
-	t.mux.RUnlock()
 	if from != nil {
 		log.Debug("%v [Publish] [topic: '%v'] from\t%v", s.Handler.LogTag(), topic.Name, from.Conn.RemoteAddr())
 	} else {
@@ -121,6 +121,7 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 	msg := s.NewMessage(arpc.CmdNotify, routePublish, topic.raw)
 	defer msg.Release()
 	t.mux.RLock()
+	defer t.mux.RUnlock()
 	for to := range t.clients {
 		err := s.push(to, msg, topic)
 		if err != nil {
@@ -138,7 +139,6 @@ func (t *TopicAgent) PublishToOne(s *Server, from *arpc.Client, topic *Topic) {
 			break
 		}
 	}
-	t.mux.RUnlock()
 }
 
 // push queues a publication to one subscriber; the message is shared unless coders,
diff --git a/server.go b/server.go
index f5ffc73..79ed3da 100644
--- a/server.go
+++ b/server.go
@@ -74,10 +74,8 @@ func (s *Server) offer(c *Client, msg *Message, method string, v interface{}, ar
 func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 	msg := s.NewMessage(CmdNotify, method, v, args...)
 	s.mux.Lock()
-	defer func() {
-		msg.Release()
-		s.mux.Unlock()
-	}()
+	defer s.mux.Unlock()
+	defer msg.Release()
 
 	for c := range s.clients {
 		s.offer(c, msg, method, v, args...)
@@ -87,10 +85,8 @@ func (s *Server) Broadcast(method string, v interface{}, args ...interface{}) {
 func (s *Server) BroadcastWithFilter(method string, v interface{}, filter func(*Client) bool, args ...interface{}) {
 	msg := s.NewMessage(CmdNotify, method, v, args...)
 	s.mux.Lock()
-	defer func() {
-		msg.Release()
-		s.mux.Unlock()
-	}()
+	defer s.mux.Unlock()
+	defer msg.Release()
 
 	for c := range s.clients {
 		if filter == nil || filter(c) {
-- 
2.43.0


From c6e34dd106ffcc8170e3c1f9fc9e0aa4566acbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:53 +0000
Subject: [PATCH 54/60] fix: the not-found log lines do not read the method of
 a released message (C13)

---
 handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/handler.go b/handler.go
index a159aea..f4a14e3 100644
--- a/handler.go
+++ b/handler.go
@@ -741,6 +741,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 				})
 			}
 		} else {
+			method = msg.Method() // logged after the message is released
 			if rh, ok = h.routes[""]; ok {
 				ctx := newContext(c, msg, rh.handlers)
 				ctx.Next()
@@ -804,6 +805,7 @@ func (h *handler) OnMessage(c *Client, msg *Message) {
 					h.AsyncExecute(func() { sh.handler(stream) })
 				}
 			} else {
+				method = msg.Method() // logged after the message is released
 				h.OnMessageDone(c, msg)
 				log.Warn("%v OnMessage: invalid Stream with method: [%v], no handler", h.LogTag(), method)
 			}
-- 
2.43.0


From 9b0e5c4dc4c1707b8eb6830318419fbd9ef5f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:08 +0000
Subject: [PATCH 55/60] fix: a concurrent Next does not make the pool miss its
 usable member (C25)

---
 client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 5ab27de..55042f8 100644
--- a/client.go
+++ b/client.go
@@ -1085,12 +1085,15 @@ func (pool *ClientPool) Get(index int) *Client {
 
 // Next returns a Client by round robin.
 func (pool *ClientPool) Next() *Client {
-	var client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+	// concurrent callers move round as well, so the other members are tried from an own start
+	var start = atomic.AddUint64(&pool.round, 1)
+	var client = pool.clients[start%pool.size]
 	if client.running && !client.reconnecting {
 		return client
 	}
 	for i := uint64(1); i < pool.size; i++ {
-		client = pool.clients[atomic.AddUint64(&pool.round, 1)%pool.size]
+		atomic.AddUint64(&pool.round, 1)
+		client = pool.clients[(start+i)%pool.size]
 		if client.running && !client.reconnecting {
 			return client
 		}
-- 
2.43.0


From b162ff34a3d4f8686b8b30bd307e90dd9da8d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:59 +0000
Subject: [PATCH 56/60] fix: received stream data and the end mark are returned
 before shutdown or a limit is reported (C22)

---
 stream.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/stream.go b/stream.go
index ce837f9..c0c0dc4 100644
--- a/stream.go
+++ b/stream.go
@@ -69,18 +69,15 @@ func (s *Stream) CloseSendContext(ctx context.Context) {
 }
 
 func (s *Stream) Recv(v interface{}) error {
-	if atomic.LoadInt32(&s.stateRecv) == 1 && len(s.chData) == 0 {
-		return io.EOF
+	// what arrived is received first, whatever else has happened since
+	select {
+	case msg, ok := <-s.chData:
+		return s.received(msg, ok, v)
+	default:
 	}
 	select {
 	case msg, ok := <-s.chData:
-		if !ok {
-			return io.EOF
-		}
-		data := msg.Data()
-		err := util.BytesToValue(s.cli.Codec, data, v)
-		s.cli.Handler.OnMessageDone(s.cli, msg)
-		return err
+		return s.received(msg, ok, v)
 	case <-s.cli.chClose:
 		return ErrClientStopped
 	}
@@ -89,13 +86,12 @@ func (s *Stream) Recv(v interface{}) error {
 func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	select {
 	case msg, ok := <-s.chData:
-		if !ok {
-			return io.EOF
-		}
-		data := msg.Data()
-		err := util.BytesToValue(s.cli.Codec, data, v)
-		s.cli.Handler.OnMessageDone(s.cli, msg)
-		return err
+		return s.received(msg, ok, v)
+	default:
+	}
+	select {
+	case msg, ok := <-s.chData:
+		return s.received(msg, ok, v)
 	case <-ctx.Done():
 		return ErrTimeout
 	case <-s.cli.chClose:
@@ -103,6 +99,16 @@ func (s *Stream) RecvContext(ctx context.Context, v interface{}) error {
 	}
 }
 
+func (s *Stream) received(msg *Message, ok bool, v interface{}) error {
+	if !ok {
+		return io.EOF
+	}
+	data := msg.Data()
+	err := util.BytesToValue(s.cli.Codec, data, v)
+	s.cli.Handler.OnMessageDone(s.cli, msg)
+	return err
+}
+
 func (s *Stream) RecvWith(ctx context.Context, v interface{}) error {
 	return s.RecvContext(ctx, v)
 }
-- 
2.43.0


From 2ca10e639564b96de68d7fe498ef68ef46c19b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:14 +0000
Subject: [PATCH 57/60] fix: a stream message is matched with its stream also
 while the client is being stopped (C23)

---
 client.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 55042f8..381a56a 100644
--- a/client.go
+++ b/client.go
@@ -764,17 +764,15 @@ func (c *Client) deleteStream(id uint64, local bool) {
 
 func (c *Client) getStreamAndPushMsg(id uint64, local, done bool) (stream *Stream, ok bool) {
 	c.mux.Lock()
-	if c.running {
-		var streamMap map[uint64]*Stream
-		if local {
-			streamMap = c.streamLocalMap
-		} else {
-			streamMap = c.streamRemoteMap
-		}
-		stream, ok = streamMap[id]
-		if ok && done {
-			delete(streamMap, id)
-		}
+	var streamMap map[uint64]*Stream
+	if local {
+		streamMap = c.streamLocalMap
+	} else {
+		streamMap = c.streamRemoteMap
+	}
+	stream, ok = streamMap[id]
+	if ok && done {
+		delete(streamMap, id)
 	}
 	c.mux.Unlock()
 	return stream, ok
-- 
2.43.0


From 061366e067a9fbbec3b080283899fc6554a02cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:49 +0000
Subject: [PATCH 58/60] fix: listener: a limit beyond the counter's range is
 not taken for a negative one (C34)

---
 extension/listener/listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/listener/listener.go b/extension/listener/listener.go
index 38e1f2e..f83193f 100644
--- a/extension/listener/listener.go
+++ b/extension/listener/listener.go
@@ -1,6 +1,7 @@
 package listener
 
 import (
+	"math"
 	"net"
 	"sync/atomic"
 	"time"
@@ -116,6 +117,9 @@ func Listen(network, addr string, maxOnlineA int, logtag string) (*Listener, err
 	if maxOnlineA < 0 {
 		maxOnlineA = 0
 	}
+	if maxOnlineA > math.MaxInt32 {
+		maxOnlineA = math.MaxInt32
+	}
 	if logtag == "" {
 		logtag = "[ARPC SVR]"
 	}
-- 
2.43.0


From 01f9e7d237d157b2cc693b920c4ffc503ea5a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:55 +0000
Subject: [PATCH 59/60] fix: stream: losing the connection sends no end mark,
 which could reach the next connection's peer (C20)

---
 client.go | 4 ++--
 stream.go | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 381a56a..fa7d072 100644
--- a/client.go
+++ b/client.go
@@ -786,11 +786,11 @@ func (c *Client) clearStream() {
 	c.streamRemoteMap = make(map[uint64]*Stream)
 	c.mux.Unlock()
 	for _, stream := range streamLocalMap {
-		stream.CloseSend()
+		stream.connLost()
 		stream.CloseRecv()
 	}
 	for _, stream := range streamRemoteMap {
-		stream.CloseSend()
+		stream.connLost()
 		stream.CloseRecv()
 	}
 }
diff --git a/stream.go b/stream.go
index c0c0dc4..85d39c0 100644
--- a/stream.go
+++ b/stream.go
@@ -68,6 +68,14 @@ func (s *Stream) CloseSendContext(ctx context.Context) {
 	}
 }
 
+// connLost closes the sending direction without an end mark: the next
+// connection's peer does not know this stream and would take it for a new one.
+func (s *Stream) connLost() {
+	if atomic.CompareAndSwapInt32(&s.stateSend, 0, 1) {
+		s.halfClose()
+	}
+}
+
 func (s *Stream) Recv(v interface{}) error {
 	// what arrived is received first, whatever else has happened since
 	select {
-- 
2.43.0


From 1e11eb528a3ff10a475fb29171b1192bc1a4c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:11 +0000
Subject: [PATCH 60/60] fix: client: Stop releases a reading goroutine that
 waits for a stream's queue (C19)

---
 client.go | 11 +++++++++++
 stream.go |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/client.go b/client.go
index fa7d072..cb50612 100644
--- a/client.go
+++ b/client.go
@@ -65,6 +65,7 @@ type Client struct {
 
 	chSend  chan *Message
 	chClose chan util.Empty
+	chStop  chan util.Empty // closed by Stop, for what the reading goroutine itself waits for
 
 	onStop func(*Client)
 
@@ -490,6 +491,7 @@ func (c *Client) Restart() error {
 
 		c.chSend = make(chan *Message, c.Handler.SendQueueSize())
 		c.chClose = make(chan util.Empty)
+		c.chStop = make(chan util.Empty)
 		c.sessionMap = make(map[uint64]*rpcSession)
 		c.streamLocalMap = make(map[uint64]*Stream)
 		c.streamRemoteMap = make(map[uint64]*Stream)
@@ -515,6 +517,13 @@ func (c *Client) Restart() error {
 func (c *Client) Stop() {
 	c.mux.Lock()
 	c.running = false
+	if c.chStop != nil {
+		select {
+		case <-c.chStop:
+		default:
+			close(c.chStop)
+		}
+	}
 	c.mux.Unlock()
 
 	c.Conn.Close()
@@ -1010,6 +1019,7 @@ func newClientWithConn(conn net.Conn, codec codec.Codec, handler Handler, onStop
 		Handler:         handler,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
@@ -1048,6 +1058,7 @@ func NewClient(dialer DialerFunc, args ...interface{}) (*Client, error) {
 		Dialer:          dialer,
 		Head:            make([]byte, 4),
 		chClose:         make(chan util.Empty),
+		chStop:          make(chan util.Empty),
 		sessionMap:      make(map[uint64]*rpcSession),
 		asyncHandlerMap: make(map[uint64]*asyncHandler),
 		streamLocalMap:  make(map[uint64]*Stream),
diff --git a/stream.go b/stream.go
index 85d39c0..ea73e9f 100644
--- a/stream.go
+++ b/stream.go
@@ -36,6 +36,9 @@ func (s *Stream) onMessage(msg *Message) {
 		select {
 		case s.chData <- msg:
 		case <-s.cli.chClose:
+		case <-s.cli.chStop:
+			// the reading goroutine waits here, it cannot close chClose
+			s.cli.Handler.OnMessageDone(s.cli, msg)
 		}
 	}
 }
-- 
2.43.0

