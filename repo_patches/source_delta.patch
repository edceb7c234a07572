From 2b367e13a23391a956a266835aee538a99958d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:18 +0000
Subject: [PATCH 01/34] fix: a readiness waiter could miss its signal and wait
 forever

---
 waiter_once.go | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/waiter_once.go b/waiter_once.go
index 8a2767c..7813515 100644
--- a/waiter_once.go
+++ b/waiter_once.go
@@ -1,6 +1,7 @@
 package neffos
 
 import (
+	"sync"
 	"sync/atomic"
 )
 
@@ -14,18 +15,16 @@ import (
 //
 // See `Server#ServeHTTP`, `Conn#Connect`, `Conn#Write`, `Conn#sendClientACK` and `Conn#handleACK`.
 type waiterOnce struct {
-	locked *uint32
-	ready  *uint32
-	err    error
-	// mu     sync.Mutex
-	ch chan struct{}
+	once  sync.Once
+	ready *uint32
+	err   error
+	ch    chan struct{}
 }
 
 func newWaiterOnce() *waiterOnce {
 	return &waiterOnce{
-		locked: new(uint32),
-		ready:  new(uint32),
-		ch:     make(chan struct{}),
+		ready: new(uint32),
+		ch:    make(chan struct{}),
 	}
 }
 
@@ -44,28 +43,24 @@ func (w *waiterOnce) wait() error {
 		return nil
 	}
 
-	if w.isReady() {
-		// println("waiter: wait() is Ready")
-		return w.err // no need to wait.
-	}
-
-	if atomic.CompareAndSwapUint32(w.locked, 0, 1) {
-		// println("waiter: lock")
-		<-w.ch
-	}
-
+	<-w.ch
 	return w.err
 }
 
-func (w *waiterOnce) unwait(err error) {
+// unwait releases any `wait` calls, only its first call has an effect.
+// It reports whether this was the first call.
+func (w *waiterOnce) unwait(err error) (first bool) {
 	if w == nil || w.isReady() {
-		return
+		return false
 	}
 
-	w.err = err
-	// at any case mark it as ready for future `wait` call to exit immediately.
-	atomic.StoreUint32(w.ready, 1)
-	if atomic.CompareAndSwapUint32(w.locked, 1, 0) { // unlock once.
+	w.once.Do(func() {
+		first = true
+		w.err = err
+		// at any case mark it as ready for future `wait` call to exit immediately.
+		atomic.StoreUint32(w.ready, 1)
 		close(w.ch)
-	}
+	})
+
+	return first
 }
-- 
2.43.0


From f0068819912591adaa75f3ea10bbf093856ec28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:57 +0000
Subject: [PATCH 02/34] fix: requests made in the same clock tick shared a wait
 token

---
 message.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/message.go b/message.go
index 7967b85..085facf 100644
--- a/message.go
+++ b/message.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,8 +220,23 @@ func (m *Message) ClearWait() bool {
 	return false
 }
 
+// the last generated wait token, see `genWait`.
+var lastWait int64
+
 func genWait(isClientConn bool) string {
 	now := time.Now().UnixNano()
+	// two calls may happen in the same clock tick, the token should be unique.
+	for {
+		last := atomic.LoadInt64(&lastWait)
+		if now <= last {
+			now = last + 1
+		}
+
+		if atomic.CompareAndSwapInt64(&lastWait, last, now) {
+			break
+		}
+	}
+
 	wait := strconv.FormatInt(now, 10)
 
 	if isClientConn {
-- 
2.43.0


From 3b2402abbd06d6a3ca1d70eaa14b9ec1c2047f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:57 +0000
Subject: [PATCH 03/34] fix: Conn Increment and Decrement lost concurrent
 updates

---
 conn.go | 45 +++++++++++++++------------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/conn.go b/conn.go
index 0f2d86f..5bb69f1 100644
--- a/conn.go
+++ b/conn.go
@@ -217,23 +217,7 @@ func (c *Conn) Get(key string) interface{} {
 //
 // Returns the incremented value.
 func (c *Conn) Increment(key string) int {
-	value := c.Get(key)
-
-	if value == nil {
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, 1)
-		return 1
-	}
-
-	intValue++
-	c.Set(key, intValue)
-	return intValue
+	return c.add(key, 1)
 }
 
 // Decrement works like `Set` method.
@@ -250,22 +234,23 @@ func (c *Conn) Increment(key string) int {
 //
 // Returns the decremented value.
 func (c *Conn) Decrement(key string) int {
-	value := c.Get(key)
+	return c.add(key, -1)
+}
 
-	if value == nil {
-		c.Set(key, -1)
-		return -1
-	}
+// add adds the "delta" to the integer value of the "key" and returns the result.
+// A missing or not integer value counts as zero.
+func (c *Conn) add(key string, delta int) int {
+	c.storeMutex.Lock()
+	defer c.storeMutex.Unlock()
 
-	intValue, ok := value.(int)
-	if !ok {
-		// override.
-		c.Set(key, -1)
-		return -1
+	if c.store == nil {
+		c.store = make(map[string]interface{})
 	}
-	intValue--
-	c.Set(key, intValue)
-	return intValue
+
+	value, _ := c.store[key].(int)
+	value += delta
+	c.store[key] = value
+	return value
 }
 
 // WasReconnected reports whether the current connection is a result of a client-side reconnection.
-- 
2.43.0


From d95e6199b96be8c2f1e4471277d77851545ea511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:57 +0000
Subject: [PATCH 04/34] fix: handshake: ID goes first, early messages keep
 their order, a client cannot acknowledge itself

---
 conn.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/conn.go b/conn.go
index 5bb69f1..24791aa 100644
--- a/conn.go
+++ b/conn.go
@@ -93,7 +93,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      map[MessageType][][]byte
+	queue      []queuedPayload
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -102,6 +102,11 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
+type queuedPayload struct {
+	typ  MessageType
+	body []byte
+}
+
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -331,8 +336,10 @@ func (c *Conn) startReader() {
 }
 
 func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
-	switch typ := b[0]; typ {
-	case ackBinary:
+	// each side accepts only what the other one is supposed to send at startup,
+	// i.e a client cannot select its own ID or mark itself as accepted.
+	switch typ, isClient := b[0], c.IsClient(); {
+	case typ == ackBinary && !isClient:
 		// from client startup to server.
 		err := c.readiness.wait()
 		if err != nil {
@@ -340,19 +347,22 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 			c.write(append(ackNotOKBinaryB, []byte(err.Error())...), false)
 			return false
 		}
+
+		// it's ok send ID, before anything else,
+		// the client does not handle messages until then.
+		if !c.write(append(ackIDBinaryB, []byte(c.id)...), false) {
+			return false
+		}
 		atomic.StoreUint32(c.acknowledged, 1)
 		c.handleQueue()
 
-		// it's ok send ID.
-		return c.write(append(ackIDBinaryB, []byte(c.id)...), false)
-
 	// case ackOKBinary:
 	// 	// from client to server.
 
 	// 	atomic.StoreUint32(c.acknowledged, 1)
 	// 	c.handleQueue()
 
-	case ackIDBinary:
+	case typ == ackIDBinary && isClient:
 		// from server to client.
 		id := string(b[1:])
 		c.id = id
@@ -362,7 +372,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		// c.write([]byte{ackOKBinary})
 		// println("ackIDBinary: pass with nil")
 		// c.handleQueue()
-	case ackNotOKBinary:
+	case typ == ackNotOKBinary && isClient:
 		// from server to client.
 		errText := string(b[1:])
 		err := errors.New(errText)
@@ -370,10 +380,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		if c.queue == nil {
-			c.queue = make(map[MessageType][][]byte)
-		}
-		c.queue[msgTyp] = append(c.queue[msgTyp], b)
+		c.queue = append(c.queue, queuedPayload{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -381,16 +388,15 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 
 }
 
+// handleQueue handles the messages that came before the ack, by their order.
 func (c *Conn) handleQueue() {
 	c.queueMutex.Lock()
-	defer c.queueMutex.Unlock()
-
-	for msgTyp, q := range c.queue {
-		for _, b := range q {
-			c.HandlePayload(msgTyp, b)
-		}
+	queue := c.queue
+	c.queue = nil
+	c.queueMutex.Unlock()
 
-		delete(c.queue, msgTyp)
+	for _, p := range queue {
+		c.HandlePayload(p.typ, p.body)
 	}
 }
 
-- 
2.43.0


From 3400930a3f1f6a382d573faa5bb17b4ca82ec7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 05/34] fix: requests: replies go to their own request, never
 block a reader, and end when the connection does

A request made while a handler runs took whatever message came next as its
reply (and raced the reader for the socket), requests were not released by
Close, late replies were handled as events and replies of a server-wide
request could block the reader of a connection.
---
 conn.go    | 217 ++++++++++++++++++++++++++++++++---------------------
 inbox.go   | 176 +++++++++++++++++++++++++++++++++++++++++++
 process.go |  82 +++++++++++++++-----
 server.go  |  14 ++--
 4 files changed, 382 insertions(+), 107 deletions(-)
 create mode 100644 inbox.go

diff --git a/conn.go b/conn.go
index 24791aa..e3181b7 100644
--- a/conn.go
+++ b/conn.go
@@ -84,7 +84,8 @@ type Conn struct {
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
 
-	isInsideHandler *uint32
+	// where the messages are read from.
+	inbox *inbox
 
 	// messages that this connection waits for a reply.
 	waitingMessages      map[string]chan Message
@@ -93,7 +94,7 @@ type Conn struct {
 	allowNativeMessages            bool
 	shouldHandleOnlyNativeMessages bool
 
-	queue      []queuedPayload
+	queue      []payload
 	queueMutex sync.Mutex
 
 	// used to fire `conn#Close` once.
@@ -102,11 +103,6 @@ type Conn struct {
 	closeCh chan struct{}
 }
 
-type queuedPayload struct {
-	typ  MessageType
-	body []byte
-}
-
 func newConn(socket Socket, namespaces Namespaces) *Conn {
 	c := &Conn{
 		socket:                         socket,
@@ -115,7 +111,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		acknowledged:                   new(uint32),
 		connectedNamespaces:            make(map[string]*NSConn),
 		processes:                      newProcesses(),
-		isInsideHandler:                new(uint32),
+		inbox:                          newInbox(),
 		waitingMessages:                make(map[string]chan Message),
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
@@ -312,26 +308,28 @@ func (c *Conn) startReader() {
 	// CLIENT is ready when ACK done
 	// SERVER is ready when ACK is done AND `Server#OnConnected` returns with nil error.
 	for {
-		b, msgTyp, err := c.socket.ReadData(c.readTimeout)
+		p, err := c.nextPayload()
 		if err != nil {
 			c.readiness.unwait(err)
 			return
 		}
 
-		if len(b) == 0 {
+		if c.IsClosed() {
+			return
+		}
+
+		if len(p.body) == 0 {
 			continue
 		}
 
 		if !c.isAcknowledged() {
-			if !c.handleACK(msgTyp, b) {
+			if !c.handleACK(p.typ, p.body) {
 				return
 			}
 			continue
 		}
 
-		atomic.StoreUint32(c.isInsideHandler, 1)
-		c.HandlePayload(msgTyp, b)
-		atomic.StoreUint32(c.isInsideHandler, 0)
+		c.HandlePayload(p.typ, p.body)
 	}
 }
 
@@ -380,7 +378,7 @@ func (c *Conn) handleACK(msgTyp MessageType, b []byte) bool {
 		return false
 	default:
 		c.queueMutex.Lock()
-		c.queue = append(c.queue, queuedPayload{msgTyp, b})
+		c.queue = append(c.queue, payload{msgTyp, b})
 		c.queueMutex.Unlock()
 	}
 
@@ -396,6 +394,9 @@ func (c *Conn) handleQueue() {
 	c.queueMutex.Unlock()
 
 	for _, p := range queue {
+		if c.IsClosed() {
+			return
+		}
 		c.HandlePayload(p.typ, p.body)
 	}
 }
@@ -414,30 +415,8 @@ func (c *Conn) handleMessage(msg Message) error {
 		return ns.events.fireEvent(ns, msg)
 	}
 
-	if isClient := c.IsClient(); msg.IsWait(isClient) {
-		if !isClient {
-			if msg.FromStackExchange && c.server.usesStackExchange() {
-				// Currently let's not export the wait field, instead
-				// just accept it on the stackexchange.
-				return c.server.StackExchange.NotifyAsk(msg, msg.wait)
-			}
-			c.server.waitingMessagesMutex.RLock()
-			ch, ok := c.server.waitingMessages[msg.wait]
-			c.server.waitingMessagesMutex.RUnlock()
-			if ok {
-				ch <- msg
-				return nil
-			}
-		}
-
-		c.waitingMessagesMutex.RLock()
-		ch, ok := c.waitingMessages[msg.wait]
-		c.waitingMessagesMutex.RUnlock()
-		if ok {
-			ch <- msg
-			return nil
-		}
-
+	if c.handleReply(msg) {
+		return nil
 	}
 
 	switch msg.Event {
@@ -464,7 +443,7 @@ func (c *Conn) handleMessage(msg Message) error {
 		err := ns.events.fireEvent(ns, msg)
 		if err != nil {
 			msg.Err = err
-			c.Write(msg)
+			c.writeReply(msg)
 			return err
 		}
 	}
@@ -472,6 +451,46 @@ func (c *Conn) handleMessage(msg Message) error {
 	return nil
 }
 
+// handleReply reports whether the "msg" is a reply to a request of this side, if so it notifies its waiter.
+// A reply that nobody waits for anymore is discarded.
+func (c *Conn) handleReply(msg Message) bool {
+	if msg.isInvalid || msg.wait == "" || msg.wait[0] == waitIsConfirmationPrefix {
+		return false
+	}
+
+	if fromClient := msg.wait[0] == waitComesFromClientPrefix; fromClient != c.IsClient() {
+		return false // it's a request of the other side.
+	}
+
+	if !c.IsClient() {
+		if msg.FromStackExchange && c.server.usesStackExchange() {
+			// Currently let's not export the wait field, instead
+			// just accept it on the stackexchange.
+			c.server.StackExchange.NotifyAsk(msg, msg.wait)
+			return true
+		}
+
+		c.server.waitingMessagesMutex.Lock()
+		ch, ok := c.server.waitingMessages[msg.wait]
+		delete(c.server.waitingMessages, msg.wait)
+		c.server.waitingMessagesMutex.Unlock()
+		if ok {
+			ch <- msg
+			return true
+		}
+	}
+
+	c.waitingMessagesMutex.Lock()
+	ch, ok := c.waitingMessages[msg.wait]
+	delete(c.waitingMessages, msg.wait)
+	c.waitingMessagesMutex.Unlock()
+	if ok {
+		ch <- msg
+	}
+
+	return true
+}
+
 // DeserializeMessage returns a Message from the "payload".
 func (c *Conn) DeserializeMessage(msgTyp MessageType, payload []byte) Message {
 	return DeserializeMessage(msgTyp, payload, c.allowNativeMessages, c.shouldHandleOnlyNativeMessages)
@@ -500,26 +519,24 @@ func (c *Conn) Connect(ctx context.Context, namespace string) (*NSConn, error) {
 	if !c.IsClient() {
 		c.readiness.unwait(nil)
 		// server-side check for ack-ed, it should be done almost immediately the client connected
-		// but give it sometime for slow networks and add an extra check for closed after 5 seconds and a deadline of 10seconds.
+		// but give it sometime for slow networks and add an extra check for closed and a deadline of 10seconds.
 		t := maxSyncWaitDur
 		for !c.isAcknowledged() {
-			time.Sleep(syncWaitDur)
-			t -= syncWaitDur
+			if c.IsClosed() {
+				return nil, ErrWrite
+			}
 
-			if t <= maxSyncWaitDur/2 { // check once after 5 seconds if closed.
-				if c.IsClosed() {
-					return nil, ErrWrite
-				}
+			if ctx != nil && ctx.Err() != nil {
+				return nil, ctx.Err()
 			}
 
-			if t == 0 {
-				// when maxSyncWaitDur passed,
-				// we could use the context's deadline but it will make things slower (extracting its value slower than the sleep time).
-				if c.IsClosed() {
-					return nil, ErrWrite
-				}
+			if t <= 0 {
+				// when maxSyncWaitDur passed.
 				return nil, context.DeadlineExceeded
 			}
+
+			time.Sleep(syncWaitDur)
+			t -= syncWaitDur
 		}
 	}
 
@@ -557,6 +574,10 @@ func (c *Conn) WaitConnect(ctx context.Context, namespace string) (ns *NSConn, e
 				return
 			}
 
+			if c.IsClosed() {
+				return nil, ErrWrite
+			}
+
 			time.Sleep(syncWaitDur)
 		}
 	}
@@ -572,15 +593,17 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.processes.get(in.Namespace).Wait() // wait any `askConnect` process (if any) of that "in.Namespace".
+	c.waitProcess(c.processes.get(in.Namespace)) // wait any `askConnect` process (if any) of that "in.Namespace".
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
 		// }
-		in.Err = ErrBadNamespace
-		c.Write(in)
+		if in.wait != "" {
+			in.Err = ErrBadNamespace
+			c.writeReply(in)
+		}
 		return nil, false
 	}
 
@@ -899,6 +922,26 @@ func (c *Conn) Write(msg Message) bool {
 		return false
 	}
 
+	if msg.FromStackExchange {
+		c.prepareServerAsk(msg)
+	}
+
+	msg.FromExplicit = ""
+	return c.write(serializeMessage(msg), msg.SetBinary)
+}
+
+// writeReply answers to a message of the remote side.
+// A request is always answered, even if this side has left from the
+// message's namespace or room in the meantime, the remote side waits for it.
+func (c *Conn) writeReply(msg Message) bool {
+	if msg.wait == "" {
+		return c.Write(msg)
+	}
+
+	if c.IsClosed() {
+		return false
+	}
+
 	msg.FromExplicit = ""
 	return c.write(serializeMessage(msg), msg.SetBinary)
 }
@@ -925,11 +968,6 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
-	mustWaitOnlyTheNextMessage := atomic.LoadUint32(c.isInsideHandler) == 1
-	return c.ask(ctx, msg, mustWaitOnlyTheNextMessage)
-}
-
-func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage bool) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -951,44 +989,55 @@ func (c *Conn) ask(ctx context.Context, msg Message, mustWaitOnlyTheNextMessage
 	}
 
 	ch := make(chan Message, 1)
-	msg.wait = genWait(c.IsClient())
-
-	if mustWaitOnlyTheNextMessage {
-		// msg.wait is not required on this state
-		// but we still set it.
-		go func() {
-			b, msgTyp, err := c.Socket().ReadData(c.readTimeout)
-			if err != nil {
-				ch <- Message{Err: err, isError: true}
-				return
-			}
+	wait := genWait(c.IsClient())
+	msg.wait = wait
 
-			ch <- c.DeserializeMessage(msgTyp, b)
-		}()
-	} else {
+	c.waitingMessagesMutex.Lock()
+	c.waitingMessages[wait] = ch
+	c.waitingMessagesMutex.Unlock()
+
+	defer func() {
 		c.waitingMessagesMutex.Lock()
-		c.waitingMessages[msg.wait] = ch
+		delete(c.waitingMessages, wait)
 		c.waitingMessagesMutex.Unlock()
+	}()
+
+	var failed <-chan struct{}
+	if c.isInsideHandler() {
+		// the reader may wait for us.
+		failed = c.readAhead(func() bool {
+			c.waitingMessagesMutex.RLock()
+			_, ok := c.waitingMessages[wait]
+			c.waitingMessagesMutex.RUnlock()
+			return ok
+		})
 	}
 
 	if !c.Write(msg) {
 		return Message{}, ErrWrite
 	}
 
+	var err error
+
 	select {
+	case receive := <-ch:
+		return receive, receive.Err
 	case <-ctx.Done():
+		err = ctx.Err()
 		if c.IsClosed() {
-			return Message{}, ErrWrite
-		}
-		return Message{}, ctx.Err()
-	case receive := <-ch:
-		if !mustWaitOnlyTheNextMessage {
-			c.waitingMessagesMutex.Lock()
-			delete(c.waitingMessages, msg.wait)
-			c.waitingMessagesMutex.Unlock()
+			err = ErrWrite
 		}
+	case <-c.closeCh:
+		err = ErrWrite
+	case <-failed:
+		err = ErrWrite
+	}
 
+	select {
+	case receive := <-ch: // it came just before.
 		return receive, receive.Err
+	default:
+		return Message{}, err
 	}
 }
 
diff --git a/inbox.go b/inbox.go
new file mode 100644
index 0000000..09f379d
--- /dev/null
+++ b/inbox.go
@@ -0,0 +1,176 @@
+package neffos
+
+import (
+	"sync"
+)
+
+type payload struct {
+	typ  MessageType
+	body []byte
+}
+
+// inbox is the single place where a connection reads its socket.
+// Payloads are handled one by one by the connection's reader (see `Conn#startReader`).
+// When a handler waits for the remote side, i.e it calls `Conn#Ask`,
+// the reader cannot read any reply by itself, so someone else reads ahead:
+// replies are given to their waiters and
+// the rest are kept here, by order, until the handler is done.
+type inbox struct {
+	mu   sync.Mutex
+	cond *sync.Cond
+	// read but not handled yet.
+	payloads []payload
+	// the read error, if any. It's the last one to be "read".
+	err error
+	// true when someone reads the socket.
+	reading bool
+	// true when the reader handles a payload.
+	handling bool
+}
+
+func newInbox() *inbox {
+	in := new(inbox)
+	in.cond = sync.NewCond(&in.mu)
+	return in
+}
+
+func (c *Conn) isInsideHandler() bool {
+	c.inbox.mu.Lock()
+	defer c.inbox.mu.Unlock()
+
+	return c.inbox.handling
+}
+
+// nextPayload blocks and returns the next payload to be handled, it's called by the reader only.
+func (c *Conn) nextPayload() (p payload, err error) {
+	in := c.inbox
+
+	in.mu.Lock()
+	defer in.mu.Unlock()
+
+	in.handling = false
+	for {
+		if len(in.payloads) > 0 {
+			p = in.payloads[0]
+			in.payloads = in.payloads[1:]
+			break
+		}
+
+		if in.err != nil {
+			return p, in.err
+		}
+
+		if !in.reading {
+			in.reading = true
+			in.mu.Unlock()
+			p.body, p.typ, err = c.socket.ReadData(c.readTimeout)
+			in.mu.Lock()
+			in.reading = false
+			in.cond.Broadcast()
+
+			if err != nil {
+				in.err = err
+				return p, err
+			}
+			break
+		}
+
+		in.cond.Wait()
+	}
+
+	in.handling = true
+	return p, nil
+}
+
+// readAhead reads on behalf of the reader, as far as the "needed" reports true.
+// It returns a channel which is closed if there is nothing more to read because of a read error.
+func (c *Conn) readAhead(needed func() bool) <-chan struct{} {
+	failed := make(chan struct{})
+
+	go func() {
+		in := c.inbox
+
+		in.mu.Lock()
+		defer in.mu.Unlock()
+
+		for needed() {
+			if in.err != nil {
+				close(failed)
+				return
+			}
+
+			if in.reading {
+				in.cond.Wait()
+				continue
+			}
+
+			in.reading = true
+			in.mu.Unlock()
+			b, typ, err := c.socket.ReadData(c.readTimeout)
+			isReply := err == nil && c.isAcknowledged() && c.handleReply(c.DeserializeMessage(typ, b))
+			in.mu.Lock()
+			in.reading = false
+			in.cond.Broadcast()
+
+			if err != nil {
+				in.err = err
+			} else if !isReply {
+				in.payloads = append(in.payloads, payload{typ, b})
+			}
+		}
+	}()
+
+	return failed
+}
+
+// waitProcess waits until a running process is done or the connection is closed.
+// The reader is able to call it too.
+func (c *Conn) waitProcess(p *process) {
+	busy := p.busy()
+	if busy == nil {
+		return
+	}
+
+	var failed <-chan struct{}
+	if c.isInsideHandler() {
+		failed = c.readAhead(func() bool {
+			select {
+			case <-busy:
+				return false
+			case <-c.closeCh:
+				return false
+			default:
+				return true
+			}
+		})
+	}
+
+	select {
+	case <-busy:
+	case <-failed:
+	case <-c.closeCh:
+	}
+}
+
+// prepareServerAsk makes sure that the reply to a request of the server (see `Server#Ask`)
+// can be read, even if that request is made by a handler of this connection.
+func (c *Conn) prepareServerAsk(msg Message) {
+	if msg.wait == "" || !c.isInsideHandler() {
+		return
+	}
+
+	c.readAhead(func() bool {
+		if !c.inbox.handling {
+			return false
+		}
+
+		if msg.FromStackExchange {
+			return true
+		}
+
+		c.server.waitingMessagesMutex.RLock()
+		_, ok := c.server.waitingMessages[msg.wait]
+		c.server.waitingMessagesMutex.RUnlock()
+		return ok
+	})
+}
diff --git a/process.go b/process.go
index e36b1ed..63bc68f 100644
--- a/process.go
+++ b/process.go
@@ -2,7 +2,6 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
 )
 
 // processes is a collection of `process`.
@@ -19,18 +18,15 @@ func newProcesses() *processes {
 }
 
 func (p *processes) get(name string) *process {
-	p.locker.RLock()
-	entry := p.entries[name]
-	p.locker.RUnlock()
+	p.locker.Lock()
+	defer p.locker.Unlock()
 
+	entry := p.entries[name]
 	if entry == nil {
 		entry = &process{
 			finished: make(chan struct{}),
 		}
-
-		p.locker.Lock()
 		p.entries[name] = entry
-		p.locker.Unlock()
 	}
 
 	return entry
@@ -38,11 +34,15 @@ func (p *processes) get(name string) *process {
 
 // process is used on connections on specific actions that needs to wait for an answer from the other side.
 // Take for example the `Conn#handleMessage.tryNamespace` which waits for `Conn#askConnect` to finish on the specific namespace.
+// A process can be started again after it's done.
 type process struct {
-	done uint32
+	mu      sync.Mutex
+	running int
+	done    bool
+	// closed when no one runs the process anymore, nil before its first `Start`.
+	idle chan struct{}
 
 	finished chan struct{}
-	waiting  sync.WaitGroup
 }
 
 // Signal closes the channel.
@@ -60,29 +60,75 @@ func (p *process) Finished() <-chan struct{} {
 	return p.finished
 }
 
-// Done calls the internal WaitGroup's `Done` method.
+// Done marks the end of a `Start`.
 func (p *process) Done() {
-	if !atomic.CompareAndSwapUint32(&p.done, 0, 1) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
 		return
 	}
 
-	p.waiting.Done()
+	p.running--
+	if p.running == 0 {
+		p.done = true
+		close(p.idle)
+	}
 }
 
-// Wait waits on the internal `WaitGroup`. See `Done` too.
+// Wait waits until `Done`, if started.
 func (p *process) Wait() {
-	if atomic.LoadUint32(&p.done) == 1 {
-		return
+	if busy := p.busy(); busy != nil {
+		<-busy
 	}
-	p.waiting.Wait()
 }
 
 // Start makes future `Wait` calls to hold until `Done`.
 func (p *process) Start() {
-	p.waiting.Add(1)
+	p.mu.Lock()
+	p.start()
+	p.mu.Unlock()
+}
+
+func (p *process) start() {
+	if p.running == 0 {
+		p.done = false
+		p.idle = make(chan struct{})
+	}
+	p.running++
+}
+
+// tryStart starts the process unless it's already running,
+// in that case it returns a channel which is closed when that is done.
+func (p *process) tryStart() <-chan struct{} {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running > 0 {
+		return p.idle
+	}
+
+	p.start()
+	return nil
+}
+
+// busy returns a channel which is closed when the process is done,
+// it returns nil if it's not running.
+func (p *process) busy() <-chan struct{} {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.running == 0 {
+		return nil
+	}
+
+	return p.idle
 }
 
 // isDone reports whether process is finished.
 func (p *process) isDone() bool {
-	return atomic.LoadUint32(&p.done) == 1
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	return p.done
 }
diff --git a/server.go b/server.go
index 19363e3..269c45f 100644
--- a/server.go
+++ b/server.go
@@ -445,6 +445,8 @@ func publishMessages(c *Conn, msgs []Message) bool {
 			return true
 		}
 
+		c.prepareServerAsk(msg)
+
 		// c.Write may fail if the message is not supposed to end to this client
 		// but the connection should be still open in order to continue.
 		if !c.Write(msg) && c.IsClosed() {
@@ -557,21 +559,23 @@ func (s *Server) Ask(ctx context.Context, msg Message) (Message, error) {
 		return s.StackExchange.Ask(ctx, msg, msg.wait)
 	}
 
-	ch := make(chan Message)
+	ch := make(chan Message, 1)
 	s.waitingMessagesMutex.Lock()
 	s.waitingMessages[msg.wait] = ch
 	s.waitingMessagesMutex.Unlock()
 
+	defer func() {
+		s.waitingMessagesMutex.Lock()
+		delete(s.waitingMessages, msg.wait)
+		s.waitingMessagesMutex.Unlock()
+	}()
+
 	s.Broadcast(nil, msg)
 
 	select {
 	case <-ctx.Done():
 		return Message{}, ctx.Err()
 	case receive := <-ch:
-		s.waitingMessagesMutex.Lock()
-		delete(s.waitingMessages, msg.wait)
-		s.waitingMessagesMutex.Unlock()
-
 		return receive, receive.Err
 	}
 }
-- 
2.43.0


From 3ea40694b800155156f3c3a841a1f3866a1d5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:12 +0000
Subject: [PATCH 06/34] fix: broadcaster lost and duplicated messages of
 concurrent broadcasts and waited for slow connections

---
 broadcaster.go | 58 ++++++++++++++++++++++----------------------------
 server.go      | 26 +++++++++++-----------
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/broadcaster.go b/broadcaster.go
index 047a187..6851053 100644
--- a/broadcaster.go
+++ b/broadcaster.go
@@ -2,52 +2,46 @@ package neffos
 
 import (
 	"sync"
-	"sync/atomic"
-	"unsafe"
 )
 
 // async broadcaster, doesn't wait for a publish to complete to all clients before any
-// next broadcast call.
+// next broadcast call. Each connection goes through the broadcasted messages by its own pace.
 type broadcaster struct {
-	messages []Message
-	mu       *sync.Mutex
-	awaiter  unsafe.Pointer
+	mu   sync.Mutex
+	next *broadcast
+}
+
+// broadcast is a single broadcast call, its fields are filled before the "ready" channel is closed.
+type broadcast struct {
+	ready chan struct{}
+	msgs  []Message
+	next  *broadcast
 }
 
 func newBroadcaster() *broadcaster {
-	ch := make(chan struct{})
-	awaiter := unsafe.Pointer(&ch)
-	return &broadcaster{
-		mu:      new(sync.Mutex),
-		awaiter: awaiter,
-	}
+	return &broadcaster{next: newBroadcast()}
 }
 
-func (b *broadcaster) getAwaiter() <-chan struct{} {
-	ptr := atomic.LoadPointer(&b.awaiter)
-	return *((*chan struct{})(ptr))
+func newBroadcast() *broadcast {
+	return &broadcast{ready: make(chan struct{})}
 }
 
-func (b *broadcaster) broadcast(msgs []Message) {
+// upcoming returns the next, not published yet, broadcast.
+func (b *broadcaster) upcoming() *broadcast {
 	b.mu.Lock()
-	b.messages = msgs
-	b.mu.Unlock()
+	defer b.mu.Unlock()
 
-	ch := make(chan struct{})
-	old := atomic.SwapPointer(&b.awaiter, unsafe.Pointer(&ch))
-	close(*(*chan struct{})(old))
+	return b.next
 }
 
-func (b *broadcaster) waitUntilClosed(closeCh <-chan struct{}) (msgs []Message, ok bool) {
-	ch := b.getAwaiter()
-	b.mu.Unlock()
-	select {
-	case <-ch:
-		msgs = b.messages[:]
-		ok = true
-	case <-closeCh:
-	}
-
+func (b *broadcaster) broadcast(msgs []Message) {
 	b.mu.Lock()
-	return
+	defer b.mu.Unlock()
+
+	current := b.next
+	b.next = newBroadcast()
+
+	current.msgs = msgs
+	current.next = b.next
+	close(current.ready)
 }
diff --git a/server.go b/server.go
index 269c45f..16974b9 100644
--- a/server.go
+++ b/server.go
@@ -336,10 +336,7 @@ func (s *Server) Upgrade(
 	}
 
 	if !s.usesStackExchange() && !s.SyncBroadcaster {
-		go func(c *Conn) {
-			for s.waitMessages(c) {
-			}
-		}(c)
+		go s.waitMessages(c, s.broadcaster.upcoming())
 	}
 
 	s.connect <- c
@@ -457,16 +454,19 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	return true
 }
 
-func (s *Server) waitMessages(c *Conn) bool {
-	s.broadcaster.mu.Lock()
-	defer s.broadcaster.mu.Unlock()
-
-	msgs, ok := s.broadcaster.waitUntilClosed(c.closeCh)
-	if !ok {
-		return false
+// waitMessages publishes the upcoming broadcasted messages to the connection until it's closed.
+func (s *Server) waitMessages(c *Conn, b *broadcast) {
+	for {
+		select {
+		case <-b.ready:
+			if !publishMessages(c, b.msgs) {
+				return
+			}
+			b = b.next
+		case <-c.closeCh:
+			return
+		}
 	}
-
-	return publishMessages(c, msgs)
 }
 
 type stringerValue struct{ v string }
-- 
2.43.0


From 289b67cd8e83274d5fbc17e1d5b83b65a32dc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 07/34] fix: each message of a multi-message broadcast is
 routed on its own

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 16974b9..9e769ae 100644
--- a/server.go
+++ b/server.go
@@ -434,12 +434,12 @@ func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
 		if msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
-			return true
+			continue
 		}
 
 		// if "To" field is given then send to a specific connection.
 		if msg.To != "" && msg.To != c.ID() {
-			return true
+			continue
 		}
 
 		c.prepareServerAsk(msg)
-- 
2.43.0


From f48c2b69060564cf0e23777d7cdc0d4409736370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 08/34] fix: Broadcast modified and kept its caller's messages

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 9e769ae..41053c7 100644
--- a/server.go
+++ b/server.go
@@ -504,6 +504,8 @@ func Exclude(connID string) fmt.Stringer { return stringerValue{connID} }
 // next broadcast call. To change that behavior set the `Server.SyncBroadcaster` to true
 // before server start.
 func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
+	// the messages are used after this call too and the caller owns that slice.
+	msgs = append([]Message(nil), msgs...)
 
 	if exceptSender != nil {
 		var fromExplicit, from string
-- 
2.43.0


From 0a11320d6916f5880cae1b5c679fe27f8b851944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 09/34] fix: a connection with an empty ID got no broadcasts

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 41053c7..e527ac0 100644
--- a/server.go
+++ b/server.go
@@ -432,7 +432,7 @@ func (s *Server) Do(fn func(*Conn), async bool) {
 
 func publishMessages(c *Conn, msgs []Message) bool {
 	for _, msg := range msgs {
-		if msg.from == c.ID() {
+		if msg.from != "" && msg.from == c.ID() {
 			// if the message is not supposed to return back to any connection with this ID.
 			continue
 		}
-- 
2.43.0


From 50529450b7de48cf5654f32e88ca1a898cd557c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:28 +0000
Subject: [PATCH 10/34] fix: server's registry of connections: no leaks, no
 races, no deadlocks in callbacks

A connection could be unregistered before it was registered and stay forever,
connections of a closing server could survive, exchanges were not always told
about a disconnect, listings raced with the registry and OnDisconnect, Do and
Close callbacks deadlocked when they broadcasted (sync) or used Do.
---
 conn.go   |   4 +-
 server.go | 220 +++++++++++++++++++++++++++++++++---------------------
 2 files changed, 134 insertions(+), 90 deletions(-)

diff --git a/conn.go b/conn.go
index e3181b7..1a20e24 100644
--- a/conn.go
+++ b/conn.go
@@ -1069,9 +1069,7 @@ func (c *Conn) Close() {
 		atomic.StoreUint32(c.acknowledged, 0)
 
 		if !c.IsClient() {
-			go func() {
-				c.server.disconnect <- c
-			}()
+			go c.server.removeConn(c)
 		}
 
 		close(c.closeCh)
diff --git a/server.go b/server.go
index e527ac0..d77171f 100644
--- a/server.go
+++ b/server.go
@@ -76,13 +76,15 @@ type Server struct {
 
 	count uint64
 
-	connections       map[*Conn]struct{}
-	connect           chan *Conn
-	disconnect        chan *Conn
-	actions           chan action
-	broadcastMessages chan []Message
+	connections map[*Conn]struct{}
+	// only one OnDisconnect at a time.
+	disconnectMutex sync.Mutex
 
 	broadcaster *broadcaster
+	// see `SyncBroadcaster`.
+	syncMutex      sync.Mutex
+	syncMessages   [][]Message
+	syncPublishing bool
 
 	// messages that this server must waits
 	// for a reply from one of its own connections(see `waitMessages`).
@@ -114,22 +116,16 @@ func New(upgrader Upgrader, connHandler ConnHandler) *Server {
 	readTimeout, writeTimeout := getTimeouts(connHandler)
 	namespaces := connHandler.GetNamespaces()
 	s := &Server{
-		uuid:              uuid.NewString(),
-		upgrader:          upgrader,
-		namespaces:        namespaces,
-		readTimeout:       readTimeout,
-		writeTimeout:      writeTimeout,
-		connections:       make(map[*Conn]struct{}),
-		connect:           make(chan *Conn, 1),
-		disconnect:        make(chan *Conn),
-		actions:           make(chan action),
-		broadcastMessages: make(chan []Message),
-		broadcaster:       newBroadcaster(),
-		waitingMessages:   make(map[string]chan Message),
-		IDGenerator:       DefaultIDGenerator,
-	}
-
-	go s.start()
+		uuid:            uuid.NewString(),
+		upgrader:        upgrader,
+		namespaces:      namespaces,
+		readTimeout:     readTimeout,
+		writeTimeout:    writeTimeout,
+		connections:     make(map[*Conn]struct{}),
+		broadcaster:     newBroadcaster(),
+		waitingMessages: make(map[string]chan Message),
+		IDGenerator:     DefaultIDGenerator,
+	}
 
 	return s
 }
@@ -164,54 +160,73 @@ func (s *Server) usesStackExchange() bool {
 	return s.StackExchange != nil
 }
 
-func (s *Server) start() {
-	atomic.StoreUint32(&s.closed, 0)
+// addConn reports whether the connection is accepted,
+// it is not if the server or the connection is closed in the meantime.
+func (s *Server) addConn(c *Conn) bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
-	for {
-		select {
-		case c := <-s.connect:
-			s.connections[c] = struct{}{}
-			atomic.AddUint64(&s.count, 1)
-		case c := <-s.disconnect:
-			if _, ok := s.connections[c]; ok {
-				// close(c.out)
-				delete(s.connections, c)
-				atomic.AddUint64(&s.count, ^uint64(0))
-				// println("disconnect...")
-				if s.OnDisconnect != nil {
-					// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-					if !s.FireDisconnectAlways && (!c.readiness.isReady() || (c.readiness.err != nil)) {
-						continue
-					}
-					s.OnDisconnect(c)
-				}
-
-				if s.usesStackExchange() {
-					s.StackExchange.OnDisconnect(c)
-				}
-			}
-		case msgs := <-s.broadcastMessages:
-			for c := range s.connections {
-				publishMessages(c, msgs)
-			}
-		case act := <-s.actions:
-			for c := range s.connections {
-				act.call(c)
-			}
+	if atomic.LoadUint32(&s.closed) > 0 || c.IsClosed() {
+		return false
+	}
 
-			if act.done != nil {
-				act.done <- struct{}{}
-			}
-		}
+	s.connections[c] = struct{}{}
+	atomic.AddUint64(&s.count, 1)
+	return true
+}
+
+// removeConn removes a closed connection and notifies about its disconnect, once.
+func (s *Server) removeConn(c *Conn) {
+	s.mu.Lock()
+	_, ok := s.connections[c]
+	if ok {
+		delete(s.connections, c)
+		atomic.AddUint64(&s.count, ^uint64(0))
+	}
+	s.mu.Unlock()
+
+	if !ok {
+		return
+	}
+
+	s.disconnectMutex.Lock()
+	defer s.disconnectMutex.Unlock()
+
+	// don't fire disconnect if was immediately closed on the `OnConnect` server event.
+	if s.OnDisconnect != nil && (s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil)) {
+		s.OnDisconnect(c)
+	}
+
+	if s.usesStackExchange() {
+		s.StackExchange.OnDisconnect(c)
 	}
 }
 
+// getConns returns a copy of the current connections.
+func (s *Server) getConns() []*Conn {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
+	conns := make([]*Conn, 0, len(s.connections))
+	for c := range s.connections {
+		conns = append(conns, c)
+	}
+
+	return conns
+}
+
 // Close terminates the server and all of its connections, client connections are getting notified.
 func (s *Server) Close() {
-	if atomic.CompareAndSwapUint32(&s.closed, 0, 1) {
-		s.Do(func(c *Conn) {
-			c.Close()
-		}, false)
+	s.mu.Lock()
+	closed := !atomic.CompareAndSwapUint32(&s.closed, 0, 1)
+	s.mu.Unlock()
+
+	if closed {
+		return
+	}
+
+	for _, c := range s.getConns() {
+		c.Close()
 	}
 }
 
@@ -339,17 +354,27 @@ func (s *Server) Upgrade(
 		go s.waitMessages(c, s.broadcaster.upcoming())
 	}
 
-	s.connect <- c
-
-	go c.startReader()
-
 	// Before `OnConnect` in order to be able
-	// to Broadcast inside the `OnConnect` custom func.
+	// to Broadcast inside the `OnConnect` custom func and
+	// before anything else so the connection cannot be gone by then.
+	var excErr error
 	if s.usesStackExchange() {
-		if err := s.StackExchange.OnConnect(c); err != nil {
-			c.readiness.unwait(err)
-			return nil, err
+		excErr = s.StackExchange.OnConnect(c)
+	}
+
+	if !s.addConn(c) {
+		if s.usesStackExchange() {
+			s.StackExchange.OnDisconnect(c)
 		}
+		c.Close()
+		return nil, errServerClosed
+	}
+
+	go c.startReader()
+
+	if excErr != nil {
+		c.readiness.unwait(excErr)
+		return nil, excErr
 	}
 
 	// Start the reader before `OnConnect`, remember clients may remotely connect to namespace before `Server#OnConnect`
@@ -406,28 +431,23 @@ func (s *Server) GetTotalConnections() uint64 {
 	return atomic.LoadUint64(&s.count)
 }
 
-type action struct {
-	call func(*Conn)
-	done chan struct{}
-}
-
 // Do loops through all connected connections and fires the "fn", with this method
-// callers can do whatever they want on a connection outside of a event's callback,
-// but make sure that these operations are not taking long time to complete because it delays the
-// new incoming connections.
+// callers can do whatever they want on a connection outside of a event's callback.
 // If "async" is true then this method does not block the flow of the program.
 func (s *Server) Do(fn func(*Conn), async bool) {
-	act := action{call: fn}
-	if !async {
-		act.done = make(chan struct{})
-		// go func() { s.actions <- act }()
-		// <-act.done
+	conns := s.getConns()
+	do := func() {
+		for _, c := range conns {
+			fn(c)
+		}
 	}
 
-	s.actions <- act
-	if !async {
-		<-act.done
+	if async {
+		go do()
+		return
 	}
+
+	do()
 }
 
 func publishMessages(c *Conn, msgs []Message) bool {
@@ -534,13 +554,39 @@ func (s *Server) Broadcast(exceptSender fmt.Stringer, msgs ...Message) {
 	}
 
 	if s.SyncBroadcaster {
-		s.broadcastMessages <- msgs
+		s.broadcastSync(msgs)
 		return
 	}
 
 	s.broadcaster.broadcast(msgs)
 }
 
+// broadcastSync publishes the messages to all connections, one call after another.
+// If called while another call is publishing (even from a callback which is fired because of that)
+// then the latter publishes these messages too.
+func (s *Server) broadcastSync(msgs []Message) {
+	s.syncMutex.Lock()
+	defer s.syncMutex.Unlock()
+
+	s.syncMessages = append(s.syncMessages, msgs)
+	if s.syncPublishing {
+		return
+	}
+
+	s.syncPublishing = true
+	for len(s.syncMessages) > 0 {
+		msgs = s.syncMessages[0]
+		s.syncMessages = s.syncMessages[1:]
+
+		s.syncMutex.Unlock()
+		for _, c := range s.getConns() {
+			publishMessages(c, msgs)
+		}
+		s.syncMutex.Lock()
+	}
+	s.syncPublishing = false
+}
+
 // Ask is like `Broadcast` but it blocks until a response
 // from a specific connection if "msg.To" is filled otherwise
 // from the first connection which will reply to this "msg".
-- 
2.43.0


From 40ccac9bf988d21355dfe7ae3f983cba906f0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:21 +0000
Subject: [PATCH 11/34] fix: a refused connection is always terminated and only
 an addressed write accepts it early

An OnConnect error after the connection was released (native-only or a write)
left it open, a broadcast by anyone accepted a connection while its OnConnect
was still undecided and OnDisconnect depended on timing.
---
 conn.go   | 22 +++++++++++++++++-----
 server.go | 11 +++++++----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 1a20e24..f7c4f8e 100644
--- a/conn.go
+++ b/conn.go
@@ -76,6 +76,8 @@ type Conn struct {
 
 	// more than 0 if acknowledged.
 	acknowledged *uint32
+	// more than 0 if `Server#OnConnect` returned an error.
+	refused uint32
 
 	// the connection's current connected namespace.
 	connectedNamespaces      map[string]*NSConn
@@ -260,6 +262,11 @@ func (c *Conn) WasReconnected() bool {
 	return c.ReconnectTries > 0
 }
 
+// wasAccepted reports whether the server accepted this connection.
+func (c *Conn) wasAccepted() bool {
+	return c.readiness.isReady() && c.readiness.err == nil && atomic.LoadUint32(&c.refused) == 0
+}
+
 func (c *Conn) isAcknowledged() bool {
 	return atomic.LoadUint32(c.acknowledged) > 0
 }
@@ -858,11 +865,6 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
-	if !c.IsClient() {
-		// for server-side if tries to send, then error will be not ignored but events should continue.
-		c.readiness.unwait(nil)
-	}
-
 	if !msg.isConnect() && !msg.isDisconnect() {
 		if !msg.locked {
 			c.connectedNamespacesMutex.RLock()
@@ -911,6 +913,11 @@ func (c *Conn) canWrite(msg Message) bool {
 		return false
 	}
 
+	if !c.IsClient() {
+		// for server-side if tries to send, then error will be not ignored but events should continue.
+		c.readiness.unwait(nil)
+	}
+
 	return true
 }
 
@@ -1046,6 +1053,11 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 // After this method call the `Conn` is not usable anymore, a new `Dial` call is required.
 func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
+		if !c.IsClient() {
+			// closed before accepted.
+			c.readiness.unwait(ErrWrite)
+		}
+
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
 			c.connectedNamespacesMutex.Lock()
diff --git a/server.go b/server.go
index d77171f..d360ac4 100644
--- a/server.go
+++ b/server.go
@@ -193,7 +193,7 @@ func (s *Server) removeConn(c *Conn) {
 	defer s.disconnectMutex.Unlock()
 
 	// don't fire disconnect if was immediately closed on the `OnConnect` server event.
-	if s.OnDisconnect != nil && (s.FireDisconnectAlways || (c.readiness.isReady() && c.readiness.err == nil)) {
+	if s.OnDisconnect != nil && (s.FireDisconnectAlways || c.wasAccepted()) {
 		s.OnDisconnect(c)
 	}
 
@@ -405,10 +405,13 @@ func (s *Server) Upgrade(
 			// Think more later today.
 			// Done but with a lot of code.... will try to cleanup some things.
 			//println("OnConnect error: " + err.Error())
-			c.readiness.unwait(err)
-			// No need to disconnect here, connection's .Close will be called on readiness ch errored.
+			atomic.StoreUint32(&c.refused, 1)
+			if !c.readiness.unwait(err) {
+				// it is already released, i.e by a write inside the `OnConnect`, so disconnect it here.
+				// Otherwise there is no need to do it, connection's .Close will be called on readiness ch errored.
+				c.Close()
+			}
 
-			// c.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 4804130bef53a8faed714140731b8868806ce407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 12/34] fix: memberships: callbacks run once and in order,
 without locks, and both sides agree under any timing

---
 conn.go           | 285 ++++++++++++++++++++++++++--------------------
 conn_namespace.go | 262 ++++++++++++++++++++++++++----------------
 conn_room.go      |   4 +-
 inbox.go          |  42 +++++--
 lifecycle.go      |  58 ++++++++++
 message.go        |   5 -
 6 files changed, 422 insertions(+), 234 deletions(-)
 create mode 100644 lifecycle.go

diff --git a/conn.go b/conn.go
index f7c4f8e..f1dd246 100644
--- a/conn.go
+++ b/conn.go
@@ -82,6 +82,8 @@ type Conn struct {
 	// the connection's current connected namespace.
 	connectedNamespaces      map[string]*NSConn
 	connectedNamespacesMutex sync.RWMutex
+	// the connected namespaces that their `OnNamespaceDisconnect` is not fired yet.
+	memberships sync.WaitGroup
 	// used to block certain actions until other action is finished,
 	// i.e `askConnect: myNamespace` blocks the `tryNamespace: myNamespace` until finish.
 	processes *processes
@@ -600,7 +602,7 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.waitProcess(c.processes.get(in.Namespace)) // wait any `askConnect` process (if any) of that "in.Namespace".
+	c.waitProcess(c.processes.get(connectProcess + in.Namespace)) // wait any `askConnect` process (if any) of that "in.Namespace".
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
@@ -617,20 +619,28 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 	return ns, true
 }
 
+// the name prefixes of the connection's processes.
+const (
+	connectProcess    = "connect:"
+	disconnectProcess = "disconnect:"
+)
+
 // server#OnConnected -> conn#Connect
 // client#WaitConnect
 // or
 // client#Connect
 func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error) {
-	p := c.processes.get(namespace)
-	p.Start() // block any `tryNamespace` with that "namespace".
+	if ns := c.Namespace(namespace); ns != nil {
+		return ns, nil
+	}
 
+	// block any `tryNamespace` with that "namespace" and wait for any other `askConnect`.
+	p := c.processes.get(connectProcess + namespace)
+	if err := c.startProcess(ctx, p); err != nil {
+		return nil, err
+	}
 	defer p.Done() // unblock.
 
-	//	defer c.processes.get(namespace).run()()
-	// for !atomic.CompareAndSwapUint32(c.isConnectingProcess, 0, 1) {
-	// }
-	// defer atomic.StoreUint32(c.isConnectingProcess, 0)
 	ns := c.Namespace(namespace)
 	if ns != nil {
 		return ns, nil
@@ -658,18 +668,6 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	if err != nil {
 		return nil, err
 	}
-	// println("got connect")
-	// re-check, maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
-	// c.connectedNamespacesMutex.RLock()
-	// ns, ok = c.connectedNamespaces[namespace]
-	// c.connectedNamespacesMutex.RUnlock()
-	// if ok {
-	// 	return ns, nil
-	// }
-
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
 
 	// println("we're connected")
 
@@ -678,16 +676,73 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 
 	// c.sendConfirmation(reply.wait)
 
-	c.notifyNamespaceConnected(ns, connectMessage)
+	var current *NSConn
+	ns.life.do(func() {
+		// maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
+		current, err = c.addNamespace(ns)
+		if current == ns {
+			c.notifyNamespaceConnected(ns, connectMessage)
+		}
+	})
+
+	return current, err
+}
+
+// addNamespace marks the "ns" as connected.
+// It returns the already connected one instead, if any.
+func (c *Conn) addNamespace(ns *NSConn) (*NSConn, error) {
+	c.connectedNamespacesMutex.Lock()
+	if c.IsClosed() {
+		c.connectedNamespacesMutex.Unlock()
+		return nil, ErrWrite
+	}
+
+	if current := c.connectedNamespaces[ns.namespace]; current != nil {
+		c.connectedNamespacesMutex.Unlock()
+		return current, nil
+	}
+
+	c.connectedNamespaces[ns.namespace] = ns
+	c.memberships.Add(1)
+	c.connectedNamespacesMutex.Unlock()
+
+	if !c.IsClient() && c.server.usesStackExchange() {
+		c.server.StackExchange.Subscribe(c, ns.namespace)
+	}
+
 	return ns, nil
 }
 
+// removeNamespace should be called once for each added namespace, on its end,
+// after its rooms.
+func (c *Conn) removeNamespace(ns *NSConn) {
+	c.connectedNamespacesMutex.Lock()
+	delete(c.connectedNamespaces, ns.namespace)
+	c.connectedNamespacesMutex.Unlock()
+}
+
+// getNamespaces returns a copy of the connected namespaces.
+func (c *Conn) getNamespaces() []*NSConn {
+	c.connectedNamespacesMutex.RLock()
+	defer c.connectedNamespacesMutex.RUnlock()
+
+	namespaces := make([]*NSConn, 0, len(c.connectedNamespaces))
+	for _, ns := range c.connectedNamespaces {
+		namespaces = append(namespaces, ns)
+	}
+
+	return namespaces
+}
+
 func (c *Conn) replyConnect(msg Message) {
 	// must give answer even a noOp if already connected.
 	if msg.wait == "" || msg.isNoOp {
 		return
 	}
 
+	// the remote side may have completed our disconnect already.
+	c.waitProcess(c.processes.get(disconnectProcess + msg.Namespace))
+
 	ns := c.Namespace(msg.Namespace)
 	if ns != nil {
 		c.writeEmptyReply(msg.wait)
@@ -697,7 +752,7 @@ func (c *Conn) replyConnect(msg Message) {
 	events, ok := c.namespaces[msg.Namespace]
 	if !ok {
 		msg.Err = ErrBadNamespace
-		c.Write(msg)
+		c.writeReply(msg)
 		return
 	}
 
@@ -705,32 +760,35 @@ func (c *Conn) replyConnect(msg Message) {
 	err := events.fireEvent(ns, msg)
 	if err != nil {
 		msg.Err = err
-		c.Write(msg)
+		c.writeReply(msg)
 		return
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	c.connectedNamespaces[msg.Namespace] = ns
-	c.connectedNamespacesMutex.Unlock()
+	ns.life.do(func() {
+		current, err := c.addNamespace(ns)
+		if err != nil {
+			return // closed.
+		}
 
-	c.writeEmptyReply(msg.wait)
+		c.writeEmptyReply(msg.wait)
 
-	c.notifyNamespaceConnected(ns, msg)
+		if current == ns {
+			c.notifyNamespaceConnected(ns, msg)
+		}
+	})
 }
 
 func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
 	connectMsg.Event = OnNamespaceConnected
 	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
-
-	if !c.IsClient() && c.server.usesStackExchange() {
-		c.server.StackExchange.Subscribe(c, ns.namespace)
-	}
 }
 
-func (c *Conn) notifyNamespaceDisconnect(_ *NSConn, disconnectMsg Message) {
+func (c *Conn) notifyNamespaceDisconnect(ns *NSConn) {
 	if !c.IsClient() && c.server.usesStackExchange() {
-		c.server.StackExchange.Unsubscribe(c, disconnectMsg.Namespace)
+		c.server.StackExchange.Unsubscribe(c, ns.namespace)
 	}
+
+	c.memberships.Done()
 }
 
 // DisconnectAll method disconnects from all namespaces,
@@ -741,13 +799,10 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 		return nil
 	}
 
-	c.connectedNamespacesMutex.Lock()
-	defer c.connectedNamespacesMutex.Unlock()
-
-	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true, locked: true}
-	for namespace := range c.connectedNamespaces {
-		disconnectMsg.Namespace = namespace
-		if err := c.askDisconnect(ctx, disconnectMsg, false); err != nil {
+	disconnectMsg := Message{Event: OnNamespaceDisconnect, IsLocal: true}
+	for _, ns := range c.getNamespaces() {
+		disconnectMsg.Namespace = ns.namespace
+		if err := c.askDisconnect(ctx, disconnectMsg); err != nil && err != ErrBadNamespace {
 			return err
 		}
 	}
@@ -755,17 +810,18 @@ func (c *Conn) DisconnectAll(ctx context.Context) error {
 	return nil
 }
 
-func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error {
-	if lock {
-		c.connectedNamespacesMutex.RLock()
+func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
+	if ns := c.Namespace(msg.Namespace); ns == nil || ns.life.isEnded() {
+		return ErrBadNamespace
 	}
 
-	ns := c.connectedNamespaces[msg.Namespace]
-
-	if lock {
-		c.connectedNamespacesMutex.RUnlock()
+	p := c.processes.get(disconnectProcess + msg.Namespace)
+	if err := c.startProcess(ctx, p); err != nil {
+		return err
 	}
+	defer p.Done()
 
+	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		return ErrBadNamespace
 	}
@@ -775,71 +831,74 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message, lock bool) error
 		return err
 	}
 
-	// if disconnect is allowed then leave rooms first with force property
-	// before namespace's deletion.
-	ns.forceLeaveAll(true)
-
-	if lock {
-		c.connectedNamespacesMutex.Lock()
-	}
-
-	delete(c.connectedNamespaces, msg.Namespace)
-
-	if lock {
-		c.connectedNamespacesMutex.Unlock()
-	}
-
 	msg.IsLocal = true
-	ns.events.fireEvent(ns, msg)
-
-	c.notifyNamespaceDisconnect(ns, msg)
+	c.disconnectNamespace(ns, msg)
 	return nil
 }
 
+// disconnectNamespace ends the namespace with the local event, it does not ask.
+func (c *Conn) disconnectNamespace(ns *NSConn, msg Message) {
+	ns.life.do(func() {
+		if !ns.life.end() {
+			return
+		}
+
+		// leave rooms first with force property before namespace's deletion.
+		ns.forceLeaveAll(msg.IsLocal, func() {
+			c.removeNamespace(ns)
+			ns.events.fireEvent(ns, msg)
+			c.notifyNamespaceDisconnect(ns)
+		})
+	})
+}
+
 func (c *Conn) replyDisconnect(msg Message) {
 	if msg.wait == "" || msg.isNoOp {
 		return
 	}
 
+	// the remote side may have completed our connect already.
+	c.waitProcess(c.processes.get(connectProcess + msg.Namespace))
+
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
 		c.writeEmptyReply(msg.wait)
 		return
 	}
 
-	// if client then we need to respond to server and delete the namespace without ask the local event.
-	if c.IsClient() {
-		// if disconnect is allowed then leave rooms first with force property
-		// before namespace's deletion.
-		ns.forceLeaveAll(false)
-
-		c.connectedNamespacesMutex.Lock()
-		delete(c.connectedNamespaces, msg.Namespace)
-		c.connectedNamespacesMutex.Unlock()
-
-		c.writeEmptyReply(msg.wait)
-
-		ns.events.fireEvent(ns, msg)
-		return
-	}
-
-	// server-side, check for error on the local event first.
-	err := ns.events.fireEvent(ns, msg)
-	if err != nil {
-		msg.Err = err
-		c.Write(msg)
-		return
-	}
-
-	ns.forceLeaveAll(false)
+	ns.life.do(func() {
+		if ns.life.isEnded() {
+			c.writeEmptyReply(msg.wait)
+			return
+		}
 
-	c.connectedNamespacesMutex.Lock()
-	delete(c.connectedNamespaces, msg.Namespace)
-	c.connectedNamespacesMutex.Unlock()
+		// if client then we need to respond to server and delete the namespace without ask the local event.
+		if c.IsClient() {
+			ns.life.end()
+			ns.forceLeaveAll(false, func() {
+				c.removeNamespace(ns)
+				c.writeEmptyReply(msg.wait)
+				ns.events.fireEvent(ns, msg)
+				c.notifyNamespaceDisconnect(ns)
+			})
+			return
+		}
 
-	c.notifyNamespaceDisconnect(ns, msg)
+		// server-side, check for error on the local event first.
+		err := ns.events.fireEvent(ns, msg)
+		if err != nil {
+			msg.Err = err
+			c.writeReply(msg)
+			return
+		}
 
-	c.writeEmptyReply(msg.wait)
+		ns.life.end()
+		ns.forceLeaveAll(false, func() {
+			c.removeNamespace(ns)
+			c.notifyNamespaceDisconnect(ns)
+			c.writeEmptyReply(msg.wait)
+		})
+	})
 }
 
 func (c *Conn) write(b []byte, binary bool) bool {
@@ -866,32 +925,13 @@ func (c *Conn) canWrite(msg Message) bool {
 	}
 
 	if !msg.isConnect() && !msg.isDisconnect() {
-		if !msg.locked {
-			c.connectedNamespacesMutex.RLock()
-		}
-
-		ns := c.connectedNamespaces[msg.Namespace]
-
-		if !msg.locked {
-			c.connectedNamespacesMutex.RUnlock()
-		}
-
+		ns := c.Namespace(msg.Namespace)
 		if ns == nil {
 			return false
 		}
 
 		if msg.Room != "" && !msg.isRoomJoin() && !msg.isRoomLeft() {
-			if !msg.locked {
-				ns.roomsMutex.RLock()
-			}
-
-			_, ok := ns.rooms[msg.Room]
-
-			if !msg.locked {
-				ns.roomsMutex.RUnlock()
-			}
-
-			if !ok {
+			if ns.Room(msg.Room) == nil {
 				// tried to send to a not joined room.
 				return false
 			}
@@ -1060,16 +1100,10 @@ func (c *Conn) Close() {
 
 		if !c.shouldHandleOnlyNativeMessages {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
-			c.connectedNamespacesMutex.Lock()
-			for namespace, ns := range c.connectedNamespaces {
-				// leave rooms first with force and local property before remove the namespace completely.
-				ns.forceLeaveAll(true)
-
+			for _, ns := range c.getNamespaces() {
 				disconnectMsg.Namespace = ns.namespace
-				ns.events.fireEvent(ns, disconnectMsg)
-				delete(c.connectedNamespaces, namespace)
+				c.disconnectNamespace(ns, disconnectMsg)
 			}
-			c.connectedNamespacesMutex.Unlock()
 
 			c.waitingMessagesMutex.Lock()
 			for wait := range c.waitingMessages {
@@ -1081,7 +1115,10 @@ func (c *Conn) Close() {
 		atomic.StoreUint32(c.acknowledged, 0)
 
 		if !c.IsClient() {
-			go c.server.removeConn(c)
+			go func() {
+				c.memberships.Wait() // until all callbacks are done.
+				c.server.removeConn(c)
+			}()
 		}
 
 		close(c.closeCh)
diff --git a/conn_namespace.go b/conn_namespace.go
index 5645bfa..d450214 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"reflect"
 	"sync"
+	"sync/atomic"
 )
 
 // NSConn describes a connection connected to a specific namespace,
@@ -24,6 +25,9 @@ type NSConn struct {
 	// Namespace(room(fire event)).
 	rooms      map[string]*Room
 	roomsMutex sync.RWMutex
+	// the requests of this side for its rooms, see `Conn.processes`.
+	processes *processes
+	life      lifecycle
 
 	// value is just a temporarily value.
 	// Storage across event callbacks for this namespace.
@@ -36,6 +40,7 @@ func newNSConn(c *Conn, namespace string, events Events) *NSConn {
 		namespace: namespace,
 		events:    events,
 		rooms:     make(map[string]*Room),
+		processes: newProcesses(),
 	}
 }
 
@@ -129,13 +134,10 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 		return nil
 	}
 
-	ns.roomsMutex.Lock()
-	defer ns.roomsMutex.Unlock()
-
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true, locked: true}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		if err := ns.askRoomLeave(ctx, leaveMsg, false); err != nil {
+	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsLocal: true}
+	for _, room := range ns.Rooms() {
+		leaveMsg.Room = room.Name
+		if err := ns.askRoomLeave(ctx, leaveMsg); err != nil && err != ErrBadRoom {
 			return err
 		}
 	}
@@ -143,22 +145,69 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 	return nil
 }
 
-func (ns *NSConn) forceLeaveAll(isLocal bool) {
+// forceLeaveAll should be called on the end of the namespace.
+// The "done" is called when all rooms are left.
+func (ns *NSConn) forceLeaveAll(isLocal bool, done func()) {
+	rooms := ns.Rooms()
+	remaining := int32(len(rooms)) + 1
+	left := func() {
+		if atomic.AddInt32(&remaining, -1) == 0 {
+			done()
+		}
+	}
+
+	for _, room := range rooms {
+		ns.leaveRoom(room, Message{
+			Namespace: ns.namespace,
+			Room:      room.Name,
+			Event:     OnRoomLeave,
+			IsForced:  true,
+			IsLocal:   isLocal,
+		}, left)
+	}
+
+	left()
+}
+
+// leaveRoom ends the room with its local events, it does not ask.
+func (ns *NSConn) leaveRoom(room *Room, msg Message, done func()) {
+	room.life.do(func() {
+		if room.life.end() {
+			ns.events.fireEvent(ns, msg)
+
+			ns.removeRoom(room)
+
+			msg.Event = OnRoomLeft
+			ns.events.fireEvent(ns, msg)
+		}
+
+		done()
+	})
+}
+
+// addRoom marks the "room" as joined.
+// It returns the already joined one instead, if any, or nil if the namespace is disconnected in the meantime.
+func (ns *NSConn) addRoom(room *Room) *Room {
 	ns.roomsMutex.Lock()
 	defer ns.roomsMutex.Unlock()
 
-	leaveMsg := Message{Namespace: ns.namespace, Event: OnRoomLeave, IsForced: true, IsLocal: isLocal}
-	for room := range ns.rooms {
-		leaveMsg.Room = room
-		ns.events.fireEvent(ns, leaveMsg)
+	if ns.life.isEnded() {
+		return nil
+	}
 
-		delete(ns.rooms, room)
+	if current := ns.rooms[room.Name]; current != nil {
+		return current
+	}
 
-		leaveMsg.Event = OnRoomLeft
-		ns.events.fireEvent(ns, leaveMsg)
+	ns.rooms[room.Name] = room
+	return room
+}
 
-		leaveMsg.Event = OnRoomLeave
-	}
+// removeRoom should be called once for each added room, on its end.
+func (ns *NSConn) removeRoom(room *Room) {
+	ns.roomsMutex.Lock()
+	delete(ns.rooms, room.Name)
+	ns.roomsMutex.Unlock()
 }
 
 // Disconnect method sends a disconnect signal to the remote side and fires the local `OnNamespaceDisconnect` event.
@@ -170,17 +219,34 @@ func (ns *NSConn) Disconnect(ctx context.Context) error {
 	return ns.Conn.askDisconnect(ctx, Message{
 		Namespace: ns.namespace,
 		Event:     OnNamespaceDisconnect,
-	}, true)
+	})
 }
 
+// the name prefixes of the namespace's processes.
+const (
+	joinProcess  = "join:"
+	leaveProcess = "leave:"
+)
+
 func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, error) {
-	ns.roomsMutex.RLock()
-	room, ok := ns.rooms[roomName]
-	ns.roomsMutex.RUnlock()
-	if ok {
+	if room := ns.Room(roomName); room != nil {
+		return room, nil
+	}
+
+	p := ns.processes.get(joinProcess + roomName)
+	if err := ns.Conn.startProcess(ctx, p); err != nil {
+		return nil, err
+	}
+	defer p.Done()
+
+	if room := ns.Room(roomName); room != nil {
 		return room, nil
 	}
 
+	if ns.life.isEnded() {
+		return nil, ErrBadNamespace
+	}
+
 	joinMsg := Message{
 		Namespace: ns.namespace,
 		Room:      roomName,
@@ -188,24 +254,33 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		IsLocal:   true,
 	}
 
-	_, err := ns.Conn.Ask(ctx, joinMsg)
+	err := ns.events.fireEvent(ns, joinMsg)
 	if err != nil {
 		return nil, err
 	}
 
-	err = ns.events.fireEvent(ns, joinMsg)
+	_, err = ns.Conn.Ask(ctx, joinMsg)
 	if err != nil {
 		return nil, err
 	}
 
-	room = newRoom(ns, roomName)
-	ns.roomsMutex.Lock()
-	ns.rooms[roomName] = room
-	ns.roomsMutex.Unlock()
+	room := newRoom(ns, roomName)
+	current := room
+	room.life.do(func() {
+		current = ns.addRoom(room) // maybe joined so far by the remote side.
+		p.Done()
+
+		if current == room {
+			joinMsg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, joinMsg)
+		}
+	})
 
-	joinMsg.Event = OnRoomJoined
-	ns.events.fireEvent(ns, joinMsg)
-	return room, nil
+	if current == nil {
+		return nil, ErrBadNamespace
+	}
+
+	return current, nil
 }
 
 func (ns *NSConn) replyRoomJoin(msg Message) {
@@ -213,41 +288,57 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		return
 	}
 
-	ns.roomsMutex.RLock()
-	_, ok := ns.rooms[msg.Room]
-	ns.roomsMutex.RUnlock()
-	if !ok {
-		err := ns.events.fireEvent(ns, msg)
-		if err != nil {
-			msg.Err = err
-			ns.Conn.Write(msg)
+	// the remote side may have completed our leave already.
+	ns.Conn.waitProcess(ns.processes.get(leaveProcess + msg.Room))
+
+	if ns.Room(msg.Room) != nil {
+		ns.Conn.writeEmptyReply(msg.wait)
+		return
+	}
+
+	err := ns.events.fireEvent(ns, msg)
+	if err != nil {
+		msg.Err = err
+		ns.Conn.writeReply(msg)
+		return
+	}
+
+	room := newRoom(ns, msg.Room)
+	room.life.do(func() {
+		current := ns.addRoom(room)
+		if current == nil {
+			msg.Err = ErrBadNamespace
+			ns.Conn.writeReply(msg)
 			return
 		}
-		ns.roomsMutex.Lock()
-		ns.rooms[msg.Room] = newRoom(ns, msg.Room)
-		ns.roomsMutex.Unlock()
 
-		msg.Event = OnRoomJoined
-		ns.events.fireEvent(ns, msg)
-	}
+		// the remote side should know about it before any of the things that may happen below.
+		ns.Conn.writeEmptyReply(msg.wait)
 
-	ns.Conn.writeEmptyReply(msg.wait)
+		if current == room {
+			msg.Event = OnRoomJoined
+			ns.events.fireEvent(ns, msg)
+		}
+	})
 }
 
-func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) error {
+func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if ns == nil {
 		return nil
 	}
 
-	if lock {
-		ns.roomsMutex.RLock()
+	if room := ns.Room(msg.Room); room == nil || room.life.isEnded() {
+		return ErrBadRoom
 	}
-	_, ok := ns.rooms[msg.Room]
-	if lock {
-		ns.roomsMutex.RUnlock()
+
+	p := ns.processes.get(leaveProcess + msg.Room)
+	if err := ns.Conn.startProcess(ctx, p); err != nil {
+		return err
 	}
+	defer p.Done()
 
-	if !ok {
+	room := ns.Room(msg.Room)
+	if room == nil {
 		return ErrBadRoom
 	}
 
@@ -257,24 +348,7 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message, lock bool) erro
 	}
 
 	// msg.IsLocal = true
-	err = ns.events.fireEvent(ns, msg)
-	if err != nil {
-		return err
-	}
-
-	if lock {
-		ns.roomsMutex.Lock()
-	}
-
-	delete(ns.rooms, msg.Room)
-
-	if lock {
-		ns.roomsMutex.Unlock()
-	}
-
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
-
+	ns.leaveRoom(room, msg, func() {})
 	return nil
 }
 
@@ -283,41 +357,37 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		return
 	}
 
+	// the remote side may have completed our join already.
+	ns.Conn.waitProcess(ns.processes.get(joinProcess + msg.Room))
+
 	room := ns.Room(msg.Room)
 	if room == nil {
 		ns.Conn.writeEmptyReply(msg.wait)
 		return
 	}
 
-	// if client then we need to respond to server and delete the room without ask the local event.
-	if ns.Conn.IsClient() {
-		ns.events.fireEvent(ns, msg)
+	room.life.do(func() {
+		if room.life.isEnded() {
+			ns.Conn.writeEmptyReply(msg.wait)
+			return
+		}
 
-		ns.roomsMutex.Lock()
-		delete(ns.rooms, msg.Room)
-		ns.roomsMutex.Unlock()
+		// if client then we need to respond to server and delete the room without ask the local event,
+		// server-side, check for error on the local event first.
+		err := ns.events.fireEvent(ns, msg)
+		if err != nil && !ns.Conn.IsClient() {
+			msg.Err = err
+			ns.Conn.writeReply(msg)
+			return
+		}
+
+		room.life.end()
+		ns.removeRoom(room)
 
+		// the remote side should know about it before any of the things that may happen below.
 		ns.Conn.writeEmptyReply(msg.wait)
 
 		msg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, msg)
-		return
-	}
-
-	// server-side, check for error on the local event first.
-	err := ns.events.fireEvent(ns, msg)
-	if err != nil {
-		msg.Err = err
-		ns.Conn.Write(msg)
-		return
-	}
-
-	ns.roomsMutex.Lock()
-	delete(ns.rooms, msg.Room)
-	ns.roomsMutex.Unlock()
-
-	msg.Event = OnRoomLeft
-	ns.events.fireEvent(ns, msg)
-
-	ns.Conn.writeEmptyReply(msg.wait)
+	})
 }
diff --git a/conn_room.go b/conn_room.go
index ee40486..50824eb 100644
--- a/conn_room.go
+++ b/conn_room.go
@@ -11,6 +11,8 @@ type Room struct {
 	NSConn *NSConn
 
 	Name string
+
+	life lifecycle
 }
 
 func newRoom(ns *NSConn, roomName string) *Room {
@@ -46,5 +48,5 @@ func (r *Room) Leave(ctx context.Context) error {
 		Namespace: r.NSConn.namespace,
 		Room:      r.Name,
 		Event:     OnRoomLeave,
-	}, true)
+	})
 }
diff --git a/inbox.go b/inbox.go
index 09f379d..70029b8 100644
--- a/inbox.go
+++ b/inbox.go
@@ -1,6 +1,7 @@
 package neffos
 
 import (
+	"context"
 	"sync"
 )
 
@@ -123,21 +124,20 @@ func (c *Conn) readAhead(needed func() bool) <-chan struct{} {
 	return failed
 }
 
-// waitProcess waits until a running process is done or the connection is closed.
+// waitFor waits until "done" is closed.
 // The reader is able to call it too.
-func (c *Conn) waitProcess(p *process) {
-	busy := p.busy()
-	if busy == nil {
-		return
+func (c *Conn) waitFor(ctx context.Context, done <-chan struct{}) error {
+	if ctx == nil {
+		ctx = context.TODO()
 	}
 
 	var failed <-chan struct{}
 	if c.isInsideHandler() {
 		failed = c.readAhead(func() bool {
 			select {
-			case <-busy:
+			case <-done:
 				return false
-			case <-c.closeCh:
+			case <-ctx.Done():
 				return false
 			default:
 				return true
@@ -146,9 +146,35 @@ func (c *Conn) waitProcess(p *process) {
 	}
 
 	select {
-	case <-busy:
+	case <-done:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
 	case <-failed:
+		return ErrWrite
 	case <-c.closeCh:
+		return ErrWrite
+	}
+}
+
+// waitProcess waits until a running process is done.
+func (c *Conn) waitProcess(p *process) {
+	if busy := p.busy(); busy != nil {
+		c.waitFor(nil, busy)
+	}
+}
+
+// startProcess starts a process, if it's already running by someone else then it waits for it first.
+func (c *Conn) startProcess(ctx context.Context, p *process) error {
+	for {
+		busy := p.tryStart()
+		if busy == nil {
+			return nil
+		}
+
+		if err := c.waitFor(ctx, busy); err != nil {
+			return err
+		}
 	}
 }
 
diff --git a/lifecycle.go b/lifecycle.go
new file mode 100644
index 0000000..a7d80b8
--- /dev/null
+++ b/lifecycle.go
@@ -0,0 +1,58 @@
+package neffos
+
+import (
+	"sync"
+)
+
+// lifecycle orders the callbacks of a single membership (namespace or room).
+// Its steps run one at a time and no one waits for them: a step which comes while another one
+// is running, maybe by a callback of it, runs right after that, by the same goroutine.
+type lifecycle struct {
+	mu      sync.Mutex
+	running bool
+	steps   []func()
+	ended   bool
+}
+
+// do runs the "step".
+func (l *lifecycle) do(step func()) {
+	l.mu.Lock()
+	l.steps = append(l.steps, step)
+	if l.running {
+		l.mu.Unlock()
+		return
+	}
+
+	l.running = true
+	for len(l.steps) > 0 {
+		step = l.steps[0]
+		l.steps = l.steps[1:]
+
+		l.mu.Unlock()
+		step()
+		l.mu.Lock()
+	}
+	l.running = false
+	l.mu.Unlock()
+}
+
+// end marks the membership as over, it reports false if it already is.
+// It's called by a step.
+func (l *lifecycle) end() bool {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	if l.ended {
+		return false
+	}
+
+	l.ended = true
+	return true
+}
+
+func (l *lifecycle) isEnded() bool {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	return l.ended
+}
diff --git a/message.go b/message.go
index 085facf..291d108 100644
--- a/message.go
+++ b/message.go
@@ -93,10 +93,6 @@ type Message struct {
 	// This field is not filled on sending/receiving.
 	IsNative bool
 
-	// Useful rarely internally on `Conn#Write` namespace and rooms checks, i.e `Conn#DisconnectAll` and `NSConn#RemoveAll`.
-	// If true then the writer's checks will not lock connectedNamespacesMutex or roomsMutex again. May be useful in the future, keep that solution.
-	locked bool
-
 	// if server or client should write using Binary message or if the incoming message was readen as binary.
 	SetBinary bool
 }
@@ -386,7 +382,6 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		IsForced:          false,
 		IsLocal:           false,
 		IsNative:          allowNativeMessages && event == OnNativeMessage,
-		locked:            false,
 		SetBinary:         msgTyp == BinaryMessage,
 	}
 }
-- 
2.43.0


From b2db063f90ac78a2d803b36d36cecc28f89d5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 13/34] fix: an error with an empty text was received as
 success

---
 message.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/message.go b/message.go
index 291d108..10adf8b 100644
--- a/message.go
+++ b/message.go
@@ -467,13 +467,11 @@ func deserializeInput(b []byte, allowNativeMessages, shouldHandleOnlyNativeMessa
 	event = string(dts[3])
 	isError := bytes.Equal(dts[4], trueByte)
 	isNoOp = bytes.Equal(dts[5], trueByte)
-	if b := dts[6]; len(b) > 0 {
-		if isError {
-			errorText := string(b)
-			err = resolveError(errorText)
-		} else {
-			body = b // keep it like that.
-		}
+	if b := dts[6]; isError {
+		errorText := string(b)
+		err = resolveError(errorText)
+	} else if len(b) > 0 {
+		body = b // keep it like that.
 	}
 
 	return
-- 
2.43.0


From faf98f468fcf3ebe6fc8771be04bb60f64d832ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 14/34] fix: Server.Ask through an exchange never got its reply

---
 message.go       | 12 ++++--------
 stackexchange.go | 14 ++++++++------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/message.go b/message.go
index 10adf8b..a1342b7 100644
--- a/message.go
+++ b/message.go
@@ -252,9 +252,9 @@ func genWaitStackExchange(wait string) string {
 	}
 
 	// This is the second special character.
-	// If found, it is removed on the deserialization
-	// and Message.FromStackExchange is set to true.
-	return string(wait[0]+waitComesFromStackExchange) + wait[1:]
+	// If found on the deserialization then
+	// the Message.FromStackExchange is set to true.
+	return wait[:1] + string(waitComesFromStackExchange) + wait[1:]
 }
 
 var (
@@ -358,12 +358,8 @@ func DeserializeMessage(msgTyp MessageType, b []byte, allowNativeMessages, shoul
 		wait = ""
 	}
 
+	// the wait token is kept as it is, the reply to this message should carry the same information.
 	fromStackExchange := len(wait) > 2 && wait[1] == waitComesFromStackExchange
-	if fromStackExchange {
-		// remove the second special char, we need to reform it,
-		// this wait token is compared to the waiter side as it's without the information about stackexchnage.
-		wait = string(wait[0]) + wait[2:]
-	}
 
 	return Message{
 		wait:              wait,
diff --git a/stackexchange.go b/stackexchange.go
index c355e91..529e721 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,18 +101,20 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
-	msg, err := s.parent.Ask(ctx, msg, token)
+	response, err := s.parent.Ask(ctx, msg, token)
 	if err != nil {
-		msg, err = s.current.Ask(ctx, msg, token)
+		response, err = s.current.Ask(ctx, msg, token)
 	}
 
-	return msg, err
+	return response, err
 }
 
 func (s *stackExchangeWrapper) NotifyAsk(msg Message, token string) error {
-	err := s.parent.NotifyAsk(msg, token)
-	if err != nil {
-		return s.current.NotifyAsk(msg, token)
+	// the one that waits for the reply is not known here, see `Ask`.
+	errParent := s.parent.NotifyAsk(msg, token)
+	errCurrent := s.current.NotifyAsk(msg, token)
+	if errParent != nil {
+		return errCurrent
 	}
 
 	return nil
-- 
2.43.0


From 3fc6d05e3de5f931fdb3f078e0cbeb6570920d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:15 +0000
Subject: [PATCH 15/34] fix: redis and nats Ask: a second reply blocked the
 caller, nats missed early replies

---
 stackexchange/nats/stackexchange_nats.go   | 19 ++++++++++++++-----
 stackexchange/redis/stackexchange_redis.go | 11 ++++++++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 659800d..5d9dc45 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -262,6 +262,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	_, err = subConn.Subscribe(selfSubject, makeMsgHandler(c))
 	if err != nil {
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -270,6 +271,7 @@ func (exc *StackExchange) OnConnect(c *neffos.Conn) error {
 	if err = subConn.LastError(); err != nil {
 		// maybe an invalid subject, send back to the client which will window.alert it.
 		// neffos.Debugf("[%s] OnConnect.SelfSubscribe Last Error: %v", c, err)
+		subConn.Close()
 		return err
 	}
 
@@ -315,17 +317,24 @@ func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token str
 		return
 	}
 
-	ch := make(chan neffos.Message)
-	sub, err := subConn.Subscribe(token, func(m *nats.Msg) {
-		ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false)
+	defer subConn.Close() // unsubscribes automatically on close.
+
+	ch := make(chan neffos.Message, 1)
+	_, err = subConn.Subscribe(token, func(m *nats.Msg) {
+		select {
+		case ch <- neffos.DeserializeMessage(neffos.TextMessage, m.Data, false, false):
+		default: // only the first reply matters.
+		}
 	})
 
 	if err != nil {
 		return response, err
 	}
 
-	defer sub.Unsubscribe()
-	defer subConn.Close()
+	// the reply should not come before the subscription.
+	if err = subConn.Flush(); err != nil {
+		return response, err
+	}
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index c19c6d3..a8cdc58 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -254,11 +254,20 @@ func (exc *StackExchange) publishCommand(channel string, b []byte) error {
 func (exc *StackExchange) Ask(ctx context.Context, msg neffos.Message, token string) (response neffos.Message, err error) {
 	sub := radix.PersistentPubSub("", "", exc.connFunc)
 	msgCh := make(chan radix.PubSubMessage)
+	defer func() {
+		// more replies may come, the subscriber cannot be closed while one of them waits.
+		go func() {
+			for range msgCh {
+			}
+		}()
+		sub.Close()
+		close(msgCh)
+	}()
+
 	err = sub.Subscribe(msgCh, token)
 	if err != nil {
 		return
 	}
-	defer sub.Close()
 
 	if !exc.publish(msg) {
 		return response, neffos.ErrWrite
-- 
2.43.0


From 4de41dfc1652e0a5d15e0f003cc038667952659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 16/34] fix: sockets: control replies could split a message, a
 queued write used an old deadline

---
 gobwas/socket.go  | 33 +++++++++++++++++++++++----------
 gorilla/socket.go |  2 +-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/gobwas/socket.go b/gobwas/socket.go
index a6b303a..c55affc 100644
--- a/gobwas/socket.go
+++ b/gobwas/socket.go
@@ -33,9 +33,16 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		state = gobwas.StateClientSide
 	}
 
-	controlHandler := wsutil.ControlFrameHandler(underline, state)
+	s := &Socket{
+		UnderlyingConn: underline,
+		request:        request,
+		state:          state,
+	}
 
-	reader := &wsutil.Reader{
+	// the replies to control frames should not be written in the middle of a message.
+	s.controlHandler = wsutil.ControlFrameHandler(controlWriter{s}, state)
+
+	s.reader = &wsutil.Reader{
 		Source:          underline,
 		State:           state,
 		CheckUTF8:       true,
@@ -44,16 +51,22 @@ func newSocket(underline net.Conn, request *http.Request, client bool) *Socket {
 		// be received between text/binary continuation frames.
 		// Read `gobwas/wsutil/reader#NextReader`.
 		//
-		OnIntermediate: controlHandler,
+		OnIntermediate: s.controlHandler,
 	}
 
-	return &Socket{
-		UnderlyingConn: underline,
-		request:        request,
-		state:          state,
-		reader:         reader,
-		controlHandler: controlHandler,
-	}
+	return s
+}
+
+// controlWriter writes the control frames of a Socket, each one by a single call.
+type controlWriter struct {
+	socket *Socket
+}
+
+func (w controlWriter) Write(b []byte) (int, error) {
+	w.socket.mu.Lock()
+	defer w.socket.mu.Unlock()
+
+	return w.socket.UnderlyingConn.Write(b)
 }
 
 // NetConn returns the underline net connection.
diff --git a/gorilla/socket.go b/gorilla/socket.go
index 11f7b1f..d28d9e3 100644
--- a/gorilla/socket.go
+++ b/gorilla/socket.go
@@ -72,11 +72,11 @@ func (s *Socket) WriteText(body []byte, timeout time.Duration) error {
 }
 
 func (s *Socket) write(body []byte, opCode int, timeout time.Duration) error {
+	s.mu.Lock()
 	if timeout > 0 {
 		s.UnderlyingConn.SetWriteDeadline(time.Now().Add(timeout))
 	}
 
-	s.mu.Lock()
 	err := s.UnderlyingConn.WriteMessage(opCode, body)
 	s.mu.Unlock()
 
-- 
2.43.0


From 4ee1e9d44d603875c7e68e2a4ba2b61480bc0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 17/34] fix: gobwas dialer lost messages that came together
 with the handshake

---
 gobwas/dialer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gobwas/dialer.go b/gobwas/dialer.go
index 60b38ff..44b7ced 100644
--- a/gobwas/dialer.go
+++ b/gobwas/dialer.go
@@ -16,11 +16,17 @@ var DefaultDialer = Dialer(gobwas.DefaultDialer)
 // To send headers to the server set the dialer's `Header` field to a `gobwas.HandshakeHeaderHTTP`.
 func Dialer(dialer gobwas.Dialer) neffos.Dialer {
 	return func(ctx context.Context, url string) (neffos.Socket, error) {
-		underline, _, _, err := dialer.Dial(ctx, url)
+		underline, br, _, err := dialer.Dial(ctx, url)
 		if err != nil {
 			return nil, err
 		}
 
-		return newSocket(underline, nil, true), nil
+		socket := newSocket(underline, nil, true)
+		if br != nil {
+			// the server has sent messages already, together with the handshake.
+			socket.reader.Source = br
+		}
+
+		return socket, nil
 	}
 }
-- 
2.43.0


From f81d570de446a72d5fbeff93a9eb18ced2b05871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:11 +0000
Subject: [PATCH 18/34] fix: dynamic struct with an unexported field panicked
 on connect

---
 reflect.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 153a5dc..aa6ea93 100644
--- a/reflect.go
+++ b/reflect.go
@@ -81,6 +81,10 @@ func getNonZeroFields(v reflect.Value) (fields map[int]reflect.Value) {
 	v = reflect.Indirect(v)
 
 	visitFields(v.Type(), func(f reflect.StructField) bool {
+		if f.PkgPath != "" {
+			return false // unexported, it cannot be set.
+		}
+
 		fieldIndex := f.Index[0]
 		fieldValue := v.Field(fieldIndex)
 		if !isZero(fieldValue) {
@@ -286,14 +290,14 @@ func makeEventsFromStruct(v reflect.Value, eventMatcher EventMatcherFunc, inject
 			cachePtr := injector(typ, c)
 			cacheElem := cachePtr.Elem()
 
-			// set the NSConn dynamic field.
-			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
-
 			// set any static fields if default injector (see above).
 			for findex, fvalue := range staticFields {
 				cacheElem.Field(findex).Set(fvalue)
 			}
 
+			// set the NSConn dynamic field.
+			cacheElem.Field(nsConnFieldIndex).Set(reflect.ValueOf(c))
+
 			// Store it for the rest of the events inside
 			// this namespace of that specific connection.
 			c.value = cachePtr
-- 
2.43.0


From 02837ca17682e6fc083f4f52363f787ebc836fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:10 +0000
Subject: [PATCH 19/34] fix: a namespace's disconnect callback could come
 before the left callback of a room

---
 conn_namespace.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/conn_namespace.go b/conn_namespace.go
index d450214..a1efece 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -24,6 +24,7 @@ type NSConn struct {
 	// Client can ask to join, server can forcely join a connection to a room.
 	// Namespace(room(fire event)).
 	rooms      map[string]*Room
+	leaving    map[*Room]struct{} // removed from the rooms but their left event is not completed yet.
 	roomsMutex sync.RWMutex
 	// the requests of this side for its rooms, see `Conn.processes`.
 	processes *processes
@@ -40,6 +41,7 @@ func newNSConn(c *Conn, namespace string, events Events) *NSConn {
 		namespace: namespace,
 		events:    events,
 		rooms:     make(map[string]*Room),
+		leaving:   make(map[*Room]struct{}),
 		processes: newProcesses(),
 	}
 }
@@ -148,7 +150,16 @@ func (ns *NSConn) LeaveAll(ctx context.Context) error {
 // forceLeaveAll should be called on the end of the namespace.
 // The "done" is called when all rooms are left.
 func (ns *NSConn) forceLeaveAll(isLocal bool, done func()) {
-	rooms := ns.Rooms()
+	ns.roomsMutex.RLock()
+	rooms := make([]*Room, 0, len(ns.rooms)+len(ns.leaving))
+	for _, room := range ns.rooms {
+		rooms = append(rooms, room)
+	}
+	for room := range ns.leaving {
+		rooms = append(rooms, room)
+	}
+	ns.roomsMutex.RUnlock()
+
 	remaining := int32(len(rooms)) + 1
 	left := func() {
 		if atomic.AddInt32(&remaining, -1) == 0 {
@@ -179,6 +190,7 @@ func (ns *NSConn) leaveRoom(room *Room, msg Message, done func()) {
 
 			msg.Event = OnRoomLeft
 			ns.events.fireEvent(ns, msg)
+			ns.leftRoom(room)
 		}
 
 		done()
@@ -207,6 +219,14 @@ func (ns *NSConn) addRoom(room *Room) *Room {
 func (ns *NSConn) removeRoom(room *Room) {
 	ns.roomsMutex.Lock()
 	delete(ns.rooms, room.Name)
+	ns.leaving[room] = struct{}{}
+	ns.roomsMutex.Unlock()
+}
+
+// leftRoom should be called after `removeRoom`, when the events of the room's end are completed.
+func (ns *NSConn) leftRoom(room *Room) {
+	ns.roomsMutex.Lock()
+	delete(ns.leaving, room)
 	ns.roomsMutex.Unlock()
 }
 
@@ -389,5 +409,6 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 
 		msg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, msg)
+		ns.leftRoom(room)
 	})
 }
-- 
2.43.0


From 35a64250db6a4decf40a7813b94f6974b2be03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:23 +0000
Subject: [PATCH 20/34] fix: the other side could fire the connected, joined
 and left callbacks

---
 conn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conn.go b/conn.go
index f1dd246..469c958 100644
--- a/conn.go
+++ b/conn.go
@@ -441,6 +441,13 @@ func (c *Conn) handleMessage(msg Message) error {
 		if ns, ok := c.tryNamespace(msg); ok {
 			ns.replyRoomLeave(msg)
 		}
+	case OnNamespaceConnected, OnRoomJoined, OnRoomLeft:
+		// they are fired by this side only, on its own connects, joins and leaves.
+		if msg.wait != "" {
+			msg.Err = ErrInvalidPayload
+			c.writeReply(msg)
+		}
+		return ErrInvalidPayload
 	default:
 		ns, ok := c.tryNamespace(msg)
 		if !ok {
-- 
2.43.0


From f0f91ac71864e37088d7fb00656296a2afbc61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:14 +0000
Subject: [PATCH 21/34] fix: a connect and a disconnect (or a join and a leave)
 at the same time could wait for each other

---
 conn.go           | 17 +++++++++++++----
 conn_namespace.go | 15 +++++++++------
 inbox.go          | 21 +++++++++++++++++++++
 process.go        | 17 +++++++++++++++++
 4 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index 469c958..4bcbb28 100644
--- a/conn.go
+++ b/conn.go
@@ -671,7 +671,7 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	}
 
 	// println("ask connect")
-	_, err = c.Ask(ctx, connectMessage) // waits for answer no matter if already connected on the other side.
+	_, err = c.askProcess(ctx, connectMessage, p) // waits for answer no matter if already connected on the other side.
 	if err != nil {
 		return nil, err
 	}
@@ -748,7 +748,7 @@ func (c *Conn) replyConnect(msg Message) {
 	}
 
 	// the remote side may have completed our disconnect already.
-	c.waitProcess(c.processes.get(disconnectProcess + msg.Namespace))
+	c.waitAnswered(c.processes.get(disconnectProcess + msg.Namespace))
 
 	ns := c.Namespace(msg.Namespace)
 	if ns != nil {
@@ -833,7 +833,7 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 		return ErrBadNamespace
 	}
 
-	_, err := c.Ask(ctx, msg)
+	_, err := c.askProcess(ctx, msg, p)
 	if err != nil {
 		return err
 	}
@@ -865,7 +865,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 	}
 
 	// the remote side may have completed our connect already.
-	c.waitProcess(c.processes.get(connectProcess + msg.Namespace))
+	c.waitAnswered(c.processes.get(connectProcess + msg.Namespace))
 
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
@@ -1022,6 +1022,11 @@ func (c *Conn) writeEmptyReply(wait string) bool {
 
 // Ask method sends a message to the remote side and blocks until a response or an error received from the specific `Message.Event`.
 func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
+	return c.askProcess(ctx, msg, nil)
+}
+
+// askProcess is the `Ask` of a running process.
+func (c *Conn) askProcess(ctx context.Context, msg Message, p *process) (Message, error) {
 	if c.shouldHandleOnlyNativeMessages {
 		// should panic or...
 		return Message{}, nil
@@ -1050,6 +1055,10 @@ func (c *Conn) Ask(ctx context.Context, msg Message) (Message, error) {
 	c.waitingMessages[wait] = ch
 	c.waitingMessagesMutex.Unlock()
 
+	if p != nil {
+		p.setWait(wait)
+	}
+
 	defer func() {
 		c.waitingMessagesMutex.Lock()
 		delete(c.waitingMessages, wait)
diff --git a/conn_namespace.go b/conn_namespace.go
index a1efece..3e79cf8 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -257,7 +257,10 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 	if err := ns.Conn.startProcess(ctx, p); err != nil {
 		return nil, err
 	}
-	defer p.Done()
+
+	var once sync.Once // another one may start the process after the first `Done`.
+	done := func() { once.Do(p.Done) }
+	defer done()
 
 	if room := ns.Room(roomName); room != nil {
 		return room, nil
@@ -279,7 +282,7 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 		return nil, err
 	}
 
-	_, err = ns.Conn.Ask(ctx, joinMsg)
+	_, err = ns.Conn.askProcess(ctx, joinMsg, p)
 	if err != nil {
 		return nil, err
 	}
@@ -288,7 +291,7 @@ func (ns *NSConn) askRoomJoin(ctx context.Context, roomName string) (*Room, erro
 	current := room
 	room.life.do(func() {
 		current = ns.addRoom(room) // maybe joined so far by the remote side.
-		p.Done()
+		done()
 
 		if current == room {
 			joinMsg.Event = OnRoomJoined
@@ -309,7 +312,7 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	}
 
 	// the remote side may have completed our leave already.
-	ns.Conn.waitProcess(ns.processes.get(leaveProcess + msg.Room))
+	ns.Conn.waitAnswered(ns.processes.get(leaveProcess + msg.Room))
 
 	if ns.Room(msg.Room) != nil {
 		ns.Conn.writeEmptyReply(msg.wait)
@@ -362,7 +365,7 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return ErrBadRoom
 	}
 
-	_, err := ns.Conn.Ask(ctx, msg)
+	_, err := ns.Conn.askProcess(ctx, msg, p)
 	if err != nil {
 		return err
 	}
@@ -378,7 +381,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 	}
 
 	// the remote side may have completed our join already.
-	ns.Conn.waitProcess(ns.processes.get(joinProcess + msg.Room))
+	ns.Conn.waitAnswered(ns.processes.get(joinProcess + msg.Room))
 
 	room := ns.Room(msg.Room)
 	if room == nil {
diff --git a/inbox.go b/inbox.go
index 70029b8..60f0ae7 100644
--- a/inbox.go
+++ b/inbox.go
@@ -164,6 +164,27 @@ func (c *Conn) waitProcess(p *process) {
 	}
 }
 
+// waitAnswered waits until a running process is done before the opposite request of the remote side is handled.
+// Both sides may wait for each other's answer, so the server waits only
+// if the remote side has already answered that process.
+func (c *Conn) waitAnswered(p *process) {
+	if !c.IsClient() {
+		wait := p.getWait()
+		if wait == "" {
+			return
+		}
+
+		c.waitingMessagesMutex.RLock()
+		_, ok := c.waitingMessages[wait]
+		c.waitingMessagesMutex.RUnlock()
+		if ok {
+			return
+		}
+	}
+
+	c.waitProcess(p)
+}
+
 // startProcess starts a process, if it's already running by someone else then it waits for it first.
 func (c *Conn) startProcess(ctx context.Context, p *process) error {
 	for {
diff --git a/process.go b/process.go
index 63bc68f..de86f39 100644
--- a/process.go
+++ b/process.go
@@ -41,6 +41,8 @@ type process struct {
 	done    bool
 	// closed when no one runs the process anymore, nil before its first `Start`.
 	idle chan struct{}
+	// the wait token of the request that is sent by the running process, if any.
+	wait string
 
 	finished chan struct{}
 }
@@ -93,11 +95,26 @@ func (p *process) Start() {
 func (p *process) start() {
 	if p.running == 0 {
 		p.done = false
+		p.wait = ""
 		p.idle = make(chan struct{})
 	}
 	p.running++
 }
 
+// setWait sets the wait token of the request, before it's sent.
+func (p *process) setWait(wait string) {
+	p.mu.Lock()
+	p.wait = wait
+	p.mu.Unlock()
+}
+
+func (p *process) getWait() string {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	return p.wait
+}
+
 // tryStart starts the process unless it's already running,
 // in that case it returns a channel which is closed when that is done.
 func (p *process) tryStart() <-chan struct{} {
-- 
2.43.0


From 382238b2569d2895838031f3ab37670cca2a97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:06 +0000
Subject: [PATCH 22/34] fix: a connection ID with a semicolon corrupted the
 broadcasts of that connection through an exchange

---
 server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index d360ac4..7e4142f 100644
--- a/server.go
+++ b/server.go
@@ -285,7 +285,7 @@ func isServerConnID(s string) bool {
 }
 
 func genServerConnID(s *Server, c *Conn) string {
-	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, c.id, c)
+	return fmt.Sprintf("neffos(0x%s(%s%p))", s.uuid, escape(c.id), c)
 }
 
 // Upgrade handles the connection, same as `ServeHTTP` but it can accept
-- 
2.43.0


From a9d825436de6bce66e5c73726d3a2badd20f8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:06 +0000
Subject: [PATCH 23/34] fix: two exchanges: a request answered with an error
 was asked again

---
 stackexchange.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stackexchange.go b/stackexchange.go
index 529e721..a83715c 100644
--- a/stackexchange.go
+++ b/stackexchange.go
@@ -101,8 +101,9 @@ func (s *stackExchangeWrapper) Publish(msgs []Message) bool {
 
 func (s *stackExchangeWrapper) Ask(ctx context.Context, msg Message, token string) (Message, error) {
 	// we run Ask and if one is failing then we keep trying for all stackexchanges.
+	// An error which came from a client's reply is the response, and there is no time left if the context is done.
 	response, err := s.parent.Ask(ctx, msg, token)
-	if err != nil {
+	if err != nil && response.Err == nil && ctx.Err() == nil {
 		response, err = s.current.Ask(ctx, msg, token)
 	}
 
-- 
2.43.0


From 0222a8eb665b658c5ad8b670421dadc6b953bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:55 +0000
Subject: [PATCH 24/34] fix: a message could wait for the connect of its
 namespace while that connect waited for the message's side

---
 conn.go  |  5 ++++-
 inbox.go | 25 +++++++++++++------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/conn.go b/conn.go
index 4bcbb28..8b731e0 100644
--- a/conn.go
+++ b/conn.go
@@ -609,7 +609,10 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	c.waitProcess(c.processes.get(connectProcess + in.Namespace)) // wait any `askConnect` process (if any) of that "in.Namespace".
+	// wait any `askConnect` process (if any) of that "in.Namespace" which is answered before the "in".
+	if p := c.processes.get(connectProcess + in.Namespace); c.isAnswered(p) {
+		c.waitProcess(p)
+	}
 
 	ns := c.Namespace(in.Namespace)
 	if ns == nil {
diff --git a/inbox.go b/inbox.go
index 60f0ae7..70116d2 100644
--- a/inbox.go
+++ b/inbox.go
@@ -168,21 +168,22 @@ func (c *Conn) waitProcess(p *process) {
 // Both sides may wait for each other's answer, so the server waits only
 // if the remote side has already answered that process.
 func (c *Conn) waitAnswered(p *process) {
-	if !c.IsClient() {
-		wait := p.getWait()
-		if wait == "" {
-			return
-		}
+	if c.IsClient() || c.isAnswered(p) {
+		c.waitProcess(p)
+	}
+}
 
-		c.waitingMessagesMutex.RLock()
-		_, ok := c.waitingMessages[wait]
-		c.waitingMessagesMutex.RUnlock()
-		if ok {
-			return
-		}
+// isAnswered reports whether the remote side has already answered the request of a running process.
+func (c *Conn) isAnswered(p *process) bool {
+	wait := p.getWait()
+	if wait == "" {
+		return false
 	}
 
-	c.waitProcess(p)
+	c.waitingMessagesMutex.RLock()
+	_, ok := c.waitingMessages[wait]
+	c.waitingMessagesMutex.RUnlock()
+	return !ok
 }
 
 // startProcess starts a process, if it's already running by someone else then it waits for it first.
-- 
2.43.0


From bf86f176a9afcdfa002caf6f7c304618212fe44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:10 +0000
Subject: [PATCH 25/34] fix: a connect or join was answered as already done
 while the namespace or room was about to end

---
 conn.go           | 17 ++++++++++++++---
 conn_namespace.go | 10 +++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 8b731e0..5e48bbf 100644
--- a/conn.go
+++ b/conn.go
@@ -609,12 +609,15 @@ func (c *Conn) Namespace(namespace string) *NSConn {
 }
 
 func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
-	// wait any `askConnect` process (if any) of that "in.Namespace" which is answered before the "in".
-	if p := c.processes.get(connectProcess + in.Namespace); c.isAnswered(p) {
+	ns := c.Namespace(in.Namespace)
+
+	// wait any `askConnect` process (if any) of that "in.Namespace",
+	// unless that namespace is already connected by the remote side.
+	if p := c.processes.get(connectProcess + in.Namespace); ns == nil || c.isAnswered(p) {
 		c.waitProcess(p)
+		ns = c.Namespace(in.Namespace)
 	}
 
-	ns := c.Namespace(in.Namespace)
 	if ns == nil {
 		// if _, canConnect := c.namespaces[msg.Namespace]; !canConnect {
 		// 	msg.Err = ErrForbiddenNamespace
@@ -633,6 +636,7 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 const (
 	connectProcess    = "connect:"
 	disconnectProcess = "disconnect:"
+	endProcess        = "end:"
 )
 
 // server#OnConnected -> conn#Connect
@@ -752,6 +756,7 @@ func (c *Conn) replyConnect(msg Message) {
 
 	// the remote side may have completed our disconnect already.
 	c.waitAnswered(c.processes.get(disconnectProcess + msg.Namespace))
+	c.waitProcess(c.processes.get(endProcess + msg.Namespace))
 
 	ns := c.Namespace(msg.Namespace)
 	if ns != nil {
@@ -848,14 +853,20 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 
 // disconnectNamespace ends the namespace with the local event, it does not ask.
 func (c *Conn) disconnectNamespace(ns *NSConn, msg Message) {
+	// a running event of that namespace may delay its end, `replyConnect` should wait for it.
+	p := c.processes.get(endProcess + ns.namespace)
+	p.Start()
+
 	ns.life.do(func() {
 		if !ns.life.end() {
+			p.Done()
 			return
 		}
 
 		// leave rooms first with force property before namespace's deletion.
 		ns.forceLeaveAll(msg.IsLocal, func() {
 			c.removeNamespace(ns)
+			p.Done()
 			ns.events.fireEvent(ns, msg)
 			c.notifyNamespaceDisconnect(ns)
 		})
diff --git a/conn_namespace.go b/conn_namespace.go
index 3e79cf8..7a0d1cf 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -182,11 +182,18 @@ func (ns *NSConn) forceLeaveAll(isLocal bool, done func()) {
 
 // leaveRoom ends the room with its local events, it does not ask.
 func (ns *NSConn) leaveRoom(room *Room, msg Message, done func()) {
+	// a running event of that room may delay its end, `replyRoomJoin` should wait for it.
+	p := ns.processes.get(endProcess + room.Name)
+	p.Start()
+
 	room.life.do(func() {
-		if room.life.end() {
+		if !room.life.end() {
+			p.Done()
+		} else {
 			ns.events.fireEvent(ns, msg)
 
 			ns.removeRoom(room)
+			p.Done()
 
 			msg.Event = OnRoomLeft
 			ns.events.fireEvent(ns, msg)
@@ -313,6 +320,7 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 
 	// the remote side may have completed our leave already.
 	ns.Conn.waitAnswered(ns.processes.get(leaveProcess + msg.Room))
+	ns.Conn.waitProcess(ns.processes.get(endProcess + msg.Room))
 
 	if ns.Room(msg.Room) != nil {
 		ns.Conn.writeEmptyReply(msg.wait)
-- 
2.43.0


From 97a69f439a1124a7a29ae95464ba933a3e858bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:24 +0000
Subject: [PATCH 26/34] fix: a client's request could be sent before its answer
 to the opposite request

---
 conn.go           | 11 +++++++++--
 conn_namespace.go | 25 +++++++++++++++++++++----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 5e48bbf..72ff899 100644
--- a/conn.go
+++ b/conn.go
@@ -780,12 +780,19 @@ func (c *Conn) replyConnect(msg Message) {
 	}
 
 	ns.life.do(func() {
+		// the answer of the client should be sent before anything else of that namespace, see `waitAnswered`.
+		if c.IsClient() {
+			c.writeEmptyReply(msg.wait)
+		}
+
 		current, err := c.addNamespace(ns)
 		if err != nil {
 			return // closed.
 		}
 
-		c.writeEmptyReply(msg.wait)
+		if !c.IsClient() {
+			c.writeEmptyReply(msg.wait)
+		}
 
 		if current == ns {
 			c.notifyNamespaceConnected(ns, msg)
@@ -897,8 +904,8 @@ func (c *Conn) replyDisconnect(msg Message) {
 		if c.IsClient() {
 			ns.life.end()
 			ns.forceLeaveAll(false, func() {
+				c.writeEmptyReply(msg.wait) // before anything else of that namespace, see `waitAnswered`.
 				c.removeNamespace(ns)
-				c.writeEmptyReply(msg.wait)
 				ns.events.fireEvent(ns, msg)
 				c.notifyNamespaceDisconnect(ns)
 			})
diff --git a/conn_namespace.go b/conn_namespace.go
index 7a0d1cf..90c4a16 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -336,15 +336,24 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 
 	room := newRoom(ns, msg.Room)
 	room.life.do(func() {
+		// the answer of the client should be sent before anything else of that room, see `waitAnswered`.
+		if ns.Conn.IsClient() {
+			ns.Conn.writeEmptyReply(msg.wait)
+		}
+
 		current := ns.addRoom(room)
 		if current == nil {
-			msg.Err = ErrBadNamespace
-			ns.Conn.writeReply(msg)
+			if !ns.Conn.IsClient() {
+				msg.Err = ErrBadNamespace
+				ns.Conn.writeReply(msg)
+			}
 			return
 		}
 
 		// the remote side should know about it before any of the things that may happen below.
-		ns.Conn.writeEmptyReply(msg.wait)
+		if !ns.Conn.IsClient() {
+			ns.Conn.writeEmptyReply(msg.wait)
+		}
 
 		if current == room {
 			msg.Event = OnRoomJoined
@@ -413,10 +422,18 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		}
 
 		room.life.end()
+
+		// the answer of the client should be sent before anything else of that room, see `waitAnswered`.
+		if ns.Conn.IsClient() {
+			ns.Conn.writeEmptyReply(msg.wait)
+		}
+
 		ns.removeRoom(room)
 
 		// the remote side should know about it before any of the things that may happen below.
-		ns.Conn.writeEmptyReply(msg.wait)
+		if !ns.Conn.IsClient() {
+			ns.Conn.writeEmptyReply(msg.wait)
+		}
 
 		msg.Event = OnRoomLeft
 		ns.events.fireEvent(ns, msg)
-- 
2.43.0


From 74c0e16d101e6009f7354bc5d85bbe02c19c86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:32 +0000
Subject: [PATCH 27/34] fix: calls from the last callback of a namespace or
 room waited for that callback

---
 conn.go           | 16 +++++++++++-----
 conn_namespace.go | 13 +++++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 72ff899..26e9285 100644
--- a/conn.go
+++ b/conn.go
@@ -613,7 +613,8 @@ func (c *Conn) tryNamespace(in Message) (*NSConn, bool) {
 
 	// wait any `askConnect` process (if any) of that "in.Namespace",
 	// unless that namespace is already connected by the remote side.
-	if p := c.processes.get(connectProcess + in.Namespace); ns == nil || c.isAnswered(p) {
+	// The server waits only if that is already answered, see `waitAnswered`.
+	if p := c.processes.get(connectProcess + in.Namespace); c.isAnswered(p) || (c.IsClient() && ns == nil) {
 		c.waitProcess(p)
 		ns = c.Namespace(in.Namespace)
 	}
@@ -841,7 +842,10 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 	if err := c.startProcess(ctx, p); err != nil {
 		return err
 	}
-	defer p.Done()
+
+	var once sync.Once // another one may start the process after the first `Done`.
+	done := func() { once.Do(p.Done) }
+	defer done()
 
 	ns := c.Namespace(msg.Namespace)
 	if ns == nil {
@@ -854,12 +858,13 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 	}
 
 	msg.IsLocal = true
-	c.disconnectNamespace(ns, msg)
+	c.disconnectNamespace(ns, msg, done)
 	return nil
 }
 
 // disconnectNamespace ends the namespace with the local event, it does not ask.
-func (c *Conn) disconnectNamespace(ns *NSConn, msg Message) {
+// The "removed" is called before that event.
+func (c *Conn) disconnectNamespace(ns *NSConn, msg Message, removed func()) {
 	// a running event of that namespace may delay its end, `replyConnect` should wait for it.
 	p := c.processes.get(endProcess + ns.namespace)
 	p.Start()
@@ -874,6 +879,7 @@ func (c *Conn) disconnectNamespace(ns *NSConn, msg Message) {
 		ns.forceLeaveAll(msg.IsLocal, func() {
 			c.removeNamespace(ns)
 			p.Done()
+			removed()
 			ns.events.fireEvent(ns, msg)
 			c.notifyNamespaceDisconnect(ns)
 		})
@@ -1139,7 +1145,7 @@ func (c *Conn) Close() {
 			disconnectMsg := Message{Event: OnNamespaceDisconnect, IsForced: true, IsLocal: true}
 			for _, ns := range c.getNamespaces() {
 				disconnectMsg.Namespace = ns.namespace
-				c.disconnectNamespace(ns, disconnectMsg)
+				c.disconnectNamespace(ns, disconnectMsg, func() {})
 			}
 
 			c.waitingMessagesMutex.Lock()
diff --git a/conn_namespace.go b/conn_namespace.go
index 90c4a16..3514a39 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -174,14 +174,15 @@ func (ns *NSConn) forceLeaveAll(isLocal bool, done func()) {
 			Event:     OnRoomLeave,
 			IsForced:  true,
 			IsLocal:   isLocal,
-		}, left)
+		}, func() {}, left)
 	}
 
 	left()
 }
 
 // leaveRoom ends the room with its local events, it does not ask.
-func (ns *NSConn) leaveRoom(room *Room, msg Message, done func()) {
+// The "removed" is called between of them.
+func (ns *NSConn) leaveRoom(room *Room, msg Message, removed, done func()) {
 	// a running event of that room may delay its end, `replyRoomJoin` should wait for it.
 	p := ns.processes.get(endProcess + room.Name)
 	p.Start()
@@ -194,6 +195,7 @@ func (ns *NSConn) leaveRoom(room *Room, msg Message, done func()) {
 
 			ns.removeRoom(room)
 			p.Done()
+			removed()
 
 			msg.Event = OnRoomLeft
 			ns.events.fireEvent(ns, msg)
@@ -375,7 +377,10 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	if err := ns.Conn.startProcess(ctx, p); err != nil {
 		return err
 	}
-	defer p.Done()
+
+	var once sync.Once // another one may start the process after the first `Done`.
+	released := func() { once.Do(p.Done) }
+	defer released()
 
 	room := ns.Room(msg.Room)
 	if room == nil {
@@ -388,7 +393,7 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 	}
 
 	// msg.IsLocal = true
-	ns.leaveRoom(room, msg, func() {})
+	ns.leaveRoom(room, msg, released, func() {})
 	return nil
 }
 
-- 
2.43.0


From 2259baa6a0b78d18f2c545d0c8b63e2d364226cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:36 +0000
Subject: [PATCH 28/34] fix: a call made by a callback of Close could wait for
 a call that waited for Close

---
 conn.go  | 7 ++++++-
 inbox.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 26e9285..cbb42d3 100644
--- a/conn.go
+++ b/conn.go
@@ -103,6 +103,8 @@ type Conn struct {
 
 	// used to fire `conn#Close` once.
 	closed *uint32
+	// closed when `conn#Close` begins, its callbacks may wait for the calls that wait for an answer.
+	closing chan struct{}
 	// useful to terminate the broadcaster, see `Server#ServeHTTP.waitMessages`.
 	closeCh chan struct{}
 }
@@ -120,6 +122,7 @@ func newConn(socket Socket, namespaces Namespaces) *Conn {
 		allowNativeMessages:            false,
 		shouldHandleOnlyNativeMessages: false,
 		closed:                         new(uint32),
+		closing:                        make(chan struct{}),
 		closeCh:                        make(chan struct{}),
 	}
 
@@ -1117,7 +1120,7 @@ func (c *Conn) askProcess(ctx context.Context, msg Message, p *process) (Message
 		if c.IsClosed() {
 			err = ErrWrite
 		}
-	case <-c.closeCh:
+	case <-c.closing:
 		err = ErrWrite
 	case <-failed:
 		err = ErrWrite
@@ -1136,6 +1139,8 @@ func (c *Conn) askProcess(ctx context.Context, msg Message, p *process) (Message
 // After this method call the `Conn` is not usable anymore, a new `Dial` call is required.
 func (c *Conn) Close() {
 	if atomic.CompareAndSwapUint32(c.closed, 0, 1) {
+		close(c.closing)
+
 		if !c.IsClient() {
 			// closed before accepted.
 			c.readiness.unwait(ErrWrite)
diff --git a/inbox.go b/inbox.go
index 70116d2..9c90340 100644
--- a/inbox.go
+++ b/inbox.go
@@ -152,7 +152,7 @@ func (c *Conn) waitFor(ctx context.Context, done <-chan struct{}) error {
 		return ctx.Err()
 	case <-failed:
 		return ErrWrite
-	case <-c.closeCh:
+	case <-c.closing:
 		return ErrWrite
 	}
 }
-- 
2.43.0


From b0844e77f6aa1825c07accbc50191f7cce685047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:40 +0000
Subject: [PATCH 29/34] fix: a dynamic struct with an odd or unexported IsZero
 in a field panicked

---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index aa6ea93..19ce319 100644
--- a/reflect.go
+++ b/reflect.go
@@ -21,13 +21,13 @@ func isZero(v reflect.Value) bool {
 			zero = zero && isZero(v.Field(i))
 		}
 
-		if typ := v.Type(); typ != nil && v.IsValid() {
+		if typ := v.Type(); typ != nil && v.CanInterface() {
 			f, ok := typ.MethodByName("IsZero")
 			// if not found
 			// if has input arguments (1 is for the value receiver, so > 1 for the actual input args)
 			// if output argument is not boolean
 			// then skip this IsZero user-defined function.
-			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 && f.Type.Out(0).Kind() != reflect.Bool {
+			if !ok || f.Type.NumIn() > 1 || f.Type.NumOut() != 1 || f.Type.Out(0) != reflect.TypeOf(false) {
 				return zero
 			}
 
-- 
2.43.0


From f97dfec4883caaf48395f8ff39bb4eeec45bcba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:32 +0000
Subject: [PATCH 30/34] fix: a namespace connected again by its disconnect
 callback lost its subscription of the exchange

---
 conn.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/conn.go b/conn.go
index cbb42d3..dcad27a 100644
--- a/conn.go
+++ b/conn.go
@@ -734,6 +734,11 @@ func (c *Conn) addNamespace(ns *NSConn) (*NSConn, error) {
 // removeNamespace should be called once for each added namespace, on its end,
 // after its rooms.
 func (c *Conn) removeNamespace(ns *NSConn) {
+	// before its deletion, the next one may subscribe right after it.
+	if !c.IsClient() && c.server.usesStackExchange() {
+		c.server.StackExchange.Unsubscribe(c, ns.namespace)
+	}
+
 	c.connectedNamespacesMutex.Lock()
 	delete(c.connectedNamespaces, ns.namespace)
 	c.connectedNamespacesMutex.Unlock()
@@ -809,14 +814,6 @@ func (c *Conn) notifyNamespaceConnected(ns *NSConn, connectMsg Message) {
 	ns.events.fireEvent(ns, connectMsg) // omit error, it's connected.
 }
 
-func (c *Conn) notifyNamespaceDisconnect(ns *NSConn) {
-	if !c.IsClient() && c.server.usesStackExchange() {
-		c.server.StackExchange.Unsubscribe(c, ns.namespace)
-	}
-
-	c.memberships.Done()
-}
-
 // DisconnectAll method disconnects from all namespaces,
 // `OnNamespaceDisconnect` even will be fired and its `Message.IsLocal` will be true.
 // The remote side gets notified.
@@ -884,7 +881,7 @@ func (c *Conn) disconnectNamespace(ns *NSConn, msg Message, removed func()) {
 			p.Done()
 			removed()
 			ns.events.fireEvent(ns, msg)
-			c.notifyNamespaceDisconnect(ns)
+			c.memberships.Done()
 		})
 	})
 }
@@ -916,7 +913,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 				c.writeEmptyReply(msg.wait) // before anything else of that namespace, see `waitAnswered`.
 				c.removeNamespace(ns)
 				ns.events.fireEvent(ns, msg)
-				c.notifyNamespaceDisconnect(ns)
+				c.memberships.Done()
 			})
 			return
 		}
@@ -932,7 +929,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 		ns.life.end()
 		ns.forceLeaveAll(false, func() {
 			c.removeNamespace(ns)
-			c.notifyNamespaceDisconnect(ns)
+			c.memberships.Done()
 			c.writeEmptyReply(msg.wait)
 		})
 	})
-- 
2.43.0


From b122b936f3b9820eae2f5924184f92294fd12684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 31/34] fix: a connect or join was answered by a membership
 that was about to end

---
 conn.go           | 4 ++++
 conn_namespace.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index dcad27a..9392149 100644
--- a/conn.go
+++ b/conn.go
@@ -788,6 +788,10 @@ func (c *Conn) replyConnect(msg Message) {
 		return
 	}
 
+	// the current one may be about to end, since the event.
+	c.waitAnswered(c.processes.get(disconnectProcess + msg.Namespace))
+	c.waitProcess(c.processes.get(endProcess + msg.Namespace))
+
 	ns.life.do(func() {
 		// the answer of the client should be sent before anything else of that namespace, see `waitAnswered`.
 		if c.IsClient() {
diff --git a/conn_namespace.go b/conn_namespace.go
index 3514a39..5f484d6 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -336,6 +336,10 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 		return
 	}
 
+	// the current one may be about to end, since the event.
+	ns.Conn.waitAnswered(ns.processes.get(leaveProcess + msg.Room))
+	ns.Conn.waitProcess(ns.processes.get(endProcess + msg.Room))
+
 	room := newRoom(ns, msg.Room)
 	room.life.do(func() {
 		// the answer of the client should be sent before anything else of that room, see `waitAnswered`.
-- 
2.43.0


From 08879a9c6ff38cdd2792a8c1a680969d89cf2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:17 +0000
Subject: [PATCH 32/34] fix: a disconnect or leave did not end what its
 simultaneous connect or join added

---
 conn.go           | 14 ++++++++++++++
 conn_namespace.go |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/conn.go b/conn.go
index 9392149..62f4a6b 100644
--- a/conn.go
+++ b/conn.go
@@ -641,6 +641,7 @@ const (
 	connectProcess    = "connect:"
 	disconnectProcess = "disconnect:"
 	endProcess        = "end:"
+	addProcess        = "add:"
 )
 
 // server#OnConnected -> conn#Connect
@@ -659,6 +660,13 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	}
 	defer p.Done() // unblock.
 
+	// `askDisconnect` should wait for it.
+	added := c.processes.get(addProcess + namespace)
+	added.Start()
+	var once sync.Once // another one may start the process after the first `Done`.
+	done := func() { once.Do(added.Done) }
+	defer done()
+
 	ns := c.Namespace(namespace)
 	if ns != nil {
 		return ns, nil
@@ -698,6 +706,7 @@ func (c *Conn) askConnect(ctx context.Context, namespace string) (*NSConn, error
 	ns.life.do(func() {
 		// maybe connected so far (can happen by a simultaneously `Connect` calls on both server and client, which is not the standard way)
 		current, err = c.addNamespace(ns)
+		done()
 		if current == ns {
 			c.notifyNamespaceConnected(ns, connectMessage)
 		}
@@ -861,6 +870,11 @@ func (c *Conn) askDisconnect(ctx context.Context, msg Message) error {
 		return err
 	}
 
+	// a simultaneously `Connect`, the remote side connected first, is answered before that.
+	if c.isAnswered(c.processes.get(connectProcess + msg.Namespace)) {
+		c.waitProcess(c.processes.get(addProcess + msg.Namespace))
+	}
+
 	msg.IsLocal = true
 	c.disconnectNamespace(ns, msg, done)
 	return nil
diff --git a/conn_namespace.go b/conn_namespace.go
index 5f484d6..45e2d37 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -396,6 +396,11 @@ func (ns *NSConn) askRoomLeave(ctx context.Context, msg Message) error {
 		return err
 	}
 
+	// a simultaneously `JoinRoom`, the remote side joined first, is answered before that.
+	if p := ns.processes.get(joinProcess + msg.Room); ns.Conn.isAnswered(p) {
+		ns.Conn.waitProcess(p)
+	}
+
 	// msg.IsLocal = true
 	ns.leaveRoom(room, msg, released, func() {})
 	return nil
-- 
2.43.0


From e8d3727a469548c6ef21d322013245b6d15765f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:37 +0000
Subject: [PATCH 33/34] fix: a broadcast right after a namespace connected
 could miss the new subscriber of redis and nats

---
 stackexchange/nats/stackexchange_nats.go   | 3 +++
 stackexchange/redis/stackexchange_redis.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/stackexchange/nats/stackexchange_nats.go b/stackexchange/nats/stackexchange_nats.go
index 5d9dc45..dcd16fe 100644
--- a/stackexchange/nats/stackexchange_nats.go
+++ b/stackexchange/nats/stackexchange_nats.go
@@ -366,6 +366,9 @@ func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
 		conn:      c,
 		namespace: namespace,
 	}
+	// nothing to do, it's received when the above one is completed:
+	// messages that are published from now on should reach that connection.
+	exc.subscribe <- subscribeAction{}
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
diff --git a/stackexchange/redis/stackexchange_redis.go b/stackexchange/redis/stackexchange_redis.go
index a8cdc58..e52210b 100644
--- a/stackexchange/redis/stackexchange_redis.go
+++ b/stackexchange/redis/stackexchange_redis.go
@@ -297,6 +297,9 @@ func (exc *StackExchange) Subscribe(c *neffos.Conn, namespace string) {
 		conn:      c,
 		namespace: namespace,
 	}
+	// nothing to do, it's received when the above one is completed:
+	// messages that are published from now on should reach that connection.
+	exc.subscribe <- subscribeAction{}
 }
 
 // Unsubscribe unsubscribes from a specific namespace,
-- 
2.43.0


From ea1ab165a758aa3aaeae10ca6360f1f42f16f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:45 +0000
Subject: [PATCH 34/34] fix: a Reply returned by a connect, disconnect, join or
 leave event left the two sides in disagreement

---
 conn.go           | 4 ++--
 conn_namespace.go | 4 ++--
 event.go          | 7 +++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 62f4a6b..a2f37d9 100644
--- a/conn.go
+++ b/conn.go
@@ -791,7 +791,7 @@ func (c *Conn) replyConnect(msg Message) {
 
 	ns = newNSConn(c, msg.Namespace, events)
 	err := events.fireEvent(ns, msg)
-	if err != nil {
+	if isRefusal(err) {
 		msg.Err = err
 		c.writeReply(msg)
 		return
@@ -938,7 +938,7 @@ func (c *Conn) replyDisconnect(msg Message) {
 
 		// server-side, check for error on the local event first.
 		err := ns.events.fireEvent(ns, msg)
-		if err != nil {
+		if isRefusal(err) {
 			msg.Err = err
 			c.writeReply(msg)
 			return
diff --git a/conn_namespace.go b/conn_namespace.go
index 45e2d37..96e363c 100644
--- a/conn_namespace.go
+++ b/conn_namespace.go
@@ -330,7 +330,7 @@ func (ns *NSConn) replyRoomJoin(msg Message) {
 	}
 
 	err := ns.events.fireEvent(ns, msg)
-	if err != nil {
+	if isRefusal(err) {
 		msg.Err = err
 		ns.Conn.writeReply(msg)
 		return
@@ -429,7 +429,7 @@ func (ns *NSConn) replyRoomLeave(msg Message) {
 		// if client then we need to respond to server and delete the room without ask the local event,
 		// server-side, check for error on the local event first.
 		err := ns.events.fireEvent(ns, msg)
-		if err != nil && !ns.Conn.IsClient() {
+		if isRefusal(err) && !ns.Conn.IsClient() {
 			msg.Err = err
 			ns.Conn.writeReply(msg)
 			return
diff --git a/event.go b/event.go
index cbfe42f..58ca7c2 100644
--- a/event.go
+++ b/event.go
@@ -145,6 +145,13 @@ func isReply(err error) ([]byte, bool) {
 	return nil, false
 }
 
+// isRefusal reports whether the "err" of a connect, disconnect, join or leave event denies it.
+// A `Reply` does not: the remote side receives that as success.
+func isRefusal(err error) bool {
+	_, ok := isReply(err)
+	return err != nil && !ok
+}
+
 // Reply is a special type of custom error which sends a message back to the other side
 // with the exact same incoming Message's Namespace (and Room if specified)
 // except its body which would be the given "body".
-- 
2.43.0

