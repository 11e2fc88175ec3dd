From 4a9cefc0410d547b4e557070bdb60f2865bf244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 01/80] fix: deliver one result per invocation, without an
 additional nil error

A completion with a result was delivered twice: as the result and as a nil
error. Callers of Invoke saw a second, empty InvokeResult (or even saw it
first), callers of Send saw a nil error.
---
 invokeclient.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 126f7da..0708286 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -97,11 +97,6 @@ func (i *invokeClient) receiveCompletionItem(completion completionMessage) error
 			done := make(chan struct{})
 			go func() {
 				ir.resultChan <- result
-				if completion.Error != "" {
-					ir.errChan <- errors.New(completion.Error)
-				} else {
-					ir.errChan <- nil
-				}
 				close(done)
 			}()
 			select {
-- 
2.43.0


From 56e495263233f1fd9cbcf9805052393ca126e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 02/80] fix: give concurrent invocations different ids

Two goroutines could increment lastID before either of them loaded it, so
both used the same invocation id and got each other's results.
---
 loop.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 3d413d0..bfd999b 100644
--- a/loop.go
+++ b/loop.go
@@ -190,8 +190,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 
 // GetNewID returns a new, connection-unique id for invocations and streams
 func (l *loop) GetNewID() string {
-	atomic.AddUint64(&l.lastID, 1)
-	return fmt.Sprint(atomic.LoadUint64(&l.lastID))
+	return fmt.Sprint(atomic.AddUint64(&l.lastID, 1))
 }
 
 func (l *loop) handleInvocationMessage(invocation invocationMessage) {
-- 
2.43.0


From f8d023c7ff80469aa2d1003d8272c3f045ac413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 03/80] fix: do not leave invocations unresolved when the
 message loop ends

An invocation that was registered and sent between cancelAllInvokes and Abort
was neither canceled nor did sending it fail, so its channel never closed.
---
 loop.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index bfd999b..dd091ae 100644
--- a/loop.go
+++ b/loop.go
@@ -142,8 +142,9 @@ msgLoop:
 		_ = l.hubConn.Close(fmt.Sprintf("%v", err), l.party.allowReconnect())
 	}
 	_ = l.dbg.Log(evt, "message loop ended")
-	l.invokeClient.cancelAllInvokes()
+	// Abort first: An invocation registered after cancelAllInvokes has to fail when it is sent.
 	l.hubConn.Abort()
+	l.invokeClient.cancelAllInvokes()
 	return err
 }
 
-- 
2.43.0


From 08f0f55cdab1b02aefc606b3c9ed3daca055eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 04/80] fix: report an error for invocations pending when the
 client is stopped

When the context of the client was canceled, the result channel of a pending
invocation was closed without any item. That is how a method without result
succeeds.
---
 Invokeresult.go | 4 ++++
 client.go       | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index a602ae1..27189a7 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -20,6 +20,10 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 		for !resultChanClosed || !errChanClosed {
 			select {
 			case <-ctx.Done():
+				// Closing without a result would look like the success of a method without result
+				ch <- InvokeResult{
+					Error: ctx.Err(),
+				}
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
diff --git a/client.go b/client.go
index 1baf2b7..de8cf8b 100644
--- a/client.go
+++ b/client.go
@@ -442,10 +442,13 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 			return
 		}
 		go func() {
-			for ir := range irCh {
+			// An invocation has one result. Only cancellation of the client might try to add another one.
+			if ir, ok := <-irCh; ok {
 				ch <- ir
 			}
 			close(ch)
+			for range irCh {
+			}
 		}()
 	}()
 	return ch
-- 
2.43.0


From a2cb5175467746ec1cd589f4154d062c4eee005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 05/80] fix: send one completion when a hub method panics

After the completion with the error, a second completion without result was
sent. The client does not know the invocation anymore at this time and closes
the connection.
---
 loop.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index dd091ae..f372556 100644
--- a/loop.go
+++ b/loop.go
@@ -215,11 +215,15 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 		} else {
 			// hub method might take a long time
 			go func() {
-				result := func() []reflect.Value {
+				result, returned := func() (result []reflect.Value, returned bool) {
 					defer l.recoverInvocationPanic(invocation)
-					return method.Call(in)
+					return method.Call(in), true
 				}()
-				l.returnInvocationResult(invocation, result)
+				// When the method panics, the completion has already been sent. Only clients which stream
+				// to the method need another one, it ends the connection and with it their streams.
+				if returned || len(invocation.StreamIds) > 0 {
+					l.returnInvocationResult(invocation, result)
+				}
 			}()
 		}
 	}
-- 
2.43.0


From 997f8d8d5ef8c2a37af2e8a76a4e31d4015d1e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 06/80] fix: encode messagepack close messages as the hub
 protocol specifies

The close message has the structure [7, Error, AllowReconnect?]. It was
written with additional headers and with an array length one too small, so the
last byte of the frame did not belong to the message, AllowReconnect was lost
and other implementations could not decode it. Close messages of other
implementations were rejected.
---
 messagepackhubprotocol.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 8b26358..fbbe833 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -113,9 +113,9 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	if err != nil {
 		return nil, err
 	}
-	// Ignore Header for all messages, except ping message that has no header
+	// Ignore Header for all messages, except ping and close message that have no header
 	// see message spec at https://github.com/dotnet/aspnetcore/blob/main/src/SignalR/docs/specs/HubProtocol.md#message-headers
-	if msgType != 6 {
+	if msgType != 6 && msgType != 7 {
 		_, err = decoder.DecodeMap()
 		if err != nil {
 			return nil, err
@@ -359,7 +359,11 @@ func (m *messagePackHubProtocol) WriteMessage(message interface{}, writer io.Wri
 			return err
 		}
 	case closeMessage:
-		if err := encodeMsgHeader(encoder, 3, msg.Type); err != nil {
+		// Like the ping message, the close message has no headers
+		if err := encoder.EncodeArrayLen(3); err != nil {
+			return err
+		}
+		if err := encoder.EncodeInt(int64(msg.Type)); err != nil {
 			return err
 		}
 		if err := encoder.EncodeString(msg.Error); err != nil {
-- 
2.43.0


From 4c4f296f4b3a210487b44d761dde360f41107149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 07/80] fix: read messagepack frames independent of how the
 transport delivers them

readFrames blocked for more data although a complete frame had been read, mixed
up the order of bytes when the length prefix or a frame was split over several
reads, and took up to four bytes of the next message away from it.
---
 messagepackhubprotocol.go | 96 ++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 53 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index fbbe833..2609697 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -32,69 +32,59 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	return messages, nil
 }
 
+// readFrames reads from the reader until at least one complete frame is available. Incomplete frames remain in remainBuf.
 func (m *messagePackHubProtocol) readFrames(reader io.Reader, remainBuf *bytes.Buffer) ([][]byte, error) {
-	frames := make([][]byte, 0)
+	p := make([]byte, 1<<15)
 	for {
-		// Try to get the frame length
-		frameLenBuf := make([]byte, binary.MaxVarintLen32)
-		n1, err := remainBuf.Read(frameLenBuf)
-		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
-			return nil, err
+		frames, err := m.parseFrames(remainBuf)
+		if err != nil || len(frames) > 0 {
+			return frames, err
+		}
+		n, err := reader.Read(p)
+		_, _ = remainBuf.Write(p[:n])
+		if errors.Is(err, io.EOF) && n == 0 {
+			// No more data for now. Let the caller come here again later
+			return frames, nil
 		}
-		n2, err := reader.Read(frameLenBuf[n1:])
 		if err != nil && !errors.Is(err, io.EOF) {
-			// Some weird other error
 			return nil, err
 		}
-		frameLen, lenLen := binary.Uvarint(frameLenBuf[:n1+n2])
-		if lenLen == 0 {
-			// reader could not supply enough bytes to decode the Uvarint
-			// Store the already read bytes in the remainBuf for next iteration
-			_, _ = remainBuf.Write(frameLenBuf[:n1+n2])
+	}
+}
+
+// parseFrames takes all complete frames out of buf
+func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error) {
+	frames := make([][]byte, 0)
+	for {
+		lenBuf := buf.Bytes()
+		if len(lenBuf) > binary.MaxVarintLen32 {
+			lenBuf = lenBuf[:binary.MaxVarintLen32]
+		}
+		frameLen, lenLen := binary.Uvarint(lenBuf)
+		var err error
+		switch {
+		case lenLen < 0 || lenLen == 0 && len(lenBuf) == binary.MaxVarintLen32:
+			err = fmt.Errorf("messagepack frame length to large")
+		case lenLen == 0:
+			// Not enough bytes to decode the Uvarint
 			return frames, nil
+		case m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize):
+			err = fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
 		}
-		if lenLen < 0 {
-			return nil, fmt.Errorf("messagepack frame length to large")
-		}
-		// Still wondering why this happens, but it happens!
-		if frameLen == 0 {
-			// Store the overread bytes for the next iteration
-			_, _ = remainBuf.Write(frameLenBuf[lenLen:])
-			continue
-		}
-		if m.maximumReceiveMessageSize > 0 && frameLen > uint64(m.maximumReceiveMessageSize) {
-			return nil, fmt.Errorf("messagepack frame length %d exceeds maximum receive message size %d", frameLen, m.maximumReceiveMessageSize)
-		}
-		// Try getting data until at least one frame is available
-		readBuf := make([]byte, frameLen)
-		frameBuf := &bytes.Buffer{}
-		// Did we read too many bytes when detecting the frameLen?
-		_, _ = frameBuf.Write(frameLenBuf[lenLen:])
-		// Read the rest of the bytes from the last iteration
-		_, _ = frameBuf.ReadFrom(remainBuf)
-		for {
-			n, err := reader.Read(readBuf)
-			if errors.Is(err, io.EOF) {
-				// Less than frameLen. Let the caller parse the already read frames and come here again later
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				return frames, nil
-			}
-			if err != nil {
-				return nil, err
-			}
-			_, _ = frameBuf.Write(readBuf[:n])
-			if frameBuf.Len() == int(frameLen) {
-				// Frame completely read. Return it to the caller
-				frames = append(frames, frameBuf.Next(int(frameLen)))
+		if err != nil {
+			if len(frames) > 0 {
+				// Let the caller process the frames before the error, which will be found again
 				return frames, nil
 			}
-			if frameBuf.Len() > int(frameLen) {
-				// More than frameLen. Append the current frame to the result and start reading the next frame
-				frames = append(frames, frameBuf.Next(int(frameLen)))
-				_, _ = remainBuf.ReadFrom(frameBuf)
-				break
-			}
+			return nil, err
+		}
+		if uint64(buf.Len()-lenLen) < frameLen {
+			// Frame incomplete
+			return frames, nil
+		}
+		_ = buf.Next(lenLen)
+		if frameLen > 0 {
+			frames = append(frames, append([]byte(nil), buf.Next(int(frameLen))...))
 		}
 	}
 }
-- 
2.43.0


From f0cfde16e7ec17baaabce49d50705431c3d2ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 08/80] fix: detect the timeout of a peer that does not read
 anymore

When the buffers of the transport were full, the message loop blocked in Ping
and could not react to the elapsed timeout interval, to canceled contexts or to
incoming messages. Sending the close message at the end of the loop blocked the
same way.
---
 hubconnection.go | 12 +++++++++++-
 loop.go          | 16 +++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index 8c60f85..8f8808c 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -72,9 +72,19 @@ func (c *defaultHubConnection) Close(errorText string, allowReconnect bool) erro
 		Error:          errorText,
 		AllowReconnect: allowReconnect,
 	}
-	return c.protocol.WriteMessage(closeMessage, c.connection)
+	e := make(chan error, 1)
+	go func() { e <- c.protocol.WriteMessage(closeMessage, c.connection) }()
+	select {
+	case err := <-e:
+		return err
+	case <-time.After(closeTimeout):
+		return fmt.Errorf("close message not sent: timeout (%v)", closeTimeout)
+	}
 }
 
+// closeTimeout is the time Close waits for a connection that does not accept data anymore
+const closeTimeout = 5 * time.Second
+
 func (c *defaultHubConnection) ConnectionID() string {
 	return c.connection.ConnectionID()
 }
diff --git a/loop.go b/loop.go
index f372556..90d4fab 100644
--- a/loop.go
+++ b/loop.go
@@ -75,6 +75,7 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	pingErr := make(chan error, 1)
 msgLoop:
 	for {
 	pingLoop:
@@ -114,14 +115,23 @@ msgLoop:
 				nextPingIn := l.party.keepAliveInterval() - time.Since(l.hubConn.LastWriteStamp())
 
 				if nextPingIn <= 0 {
-					if err = l.hubConn.Ping(); err != nil {
-						break pingLoop
-					}
+					// The ping blocks when the other side does not read anymore. This must not block
+					// the loop, because the loop has to detect the timeout then.
+					go func() {
+						if err := l.hubConn.Ping(); err != nil {
+							select {
+							case pingErr <- err:
+							default:
+							}
+						}
+					}()
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
 					keepAliveTicker.Reset(nextPingIn)
 				}
 				// Don't break the pingLoop when keepAlive is over, it exists for this case
+			case err = <-pingErr:
+				break pingLoop
 			case <-timeoutTicker.C:
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
-- 
2.43.0


From c3573435a3e4e785f13bce55cf750cdf05793de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 09/80] fix: send no completion for non-blocking invocations
 that can not be dispatched

The completion had an empty invocation id, which made the other side close the
connection: one broadcast to a method the receiver of a client does not have
ended the connection. Sending it also blocked the message loop when the other
side did not read.
---
 loop.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/loop.go b/loop.go
index 90d4fab..5b88326 100644
--- a/loop.go
+++ b/loop.go
@@ -211,16 +211,16 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	if method, ok := getMethod(l.party.invocationTarget(l.hubConn), methodName); !ok {
 		// Unable to find the method
 		_ = l.info.Log(evt, "getMethod", "error", "missing method", "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, fmt.Sprintf("Unknown method %s", invocation.Target))
+		l.rejectInvocation(invocation, fmt.Sprintf("Unknown method %s", invocation.Target))
 	} else if in, err := buildMethodArguments(method, invocation, l.streamClient, l.protocol); err != nil {
 		// argument build failed
 		_ = l.info.Log(evt, "buildMethodArguments", "error", err, "name", invocation.Target, react, "send completion with error")
-		_ = l.hubConn.Completion(invocation.InvocationID, nil, err.Error())
+		l.rejectInvocation(invocation, err.Error())
 	} else {
 		// Stream invocation is only allowed when the method has only one return value
 		// We allow no channel return values, because a client can receive as stream with only one item
 		if invocation.Type == 4 && method.Type().NumOut() != 1 {
-			_ = l.hubConn.Completion(invocation.InvocationID, nil,
+			l.rejectInvocation(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
 			// hub method might take a long time
@@ -239,6 +239,15 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 	}
 }
 
+// rejectInvocation sends the completion for an invocation which can not be dispatched
+func (l *loop) rejectInvocation(invocation invocationMessage, reason string) {
+	// No invocation id, no completion
+	if invocation.InvocationID != "" {
+		// Sending might block when the other side does not read. The loop should not wait for this.
+		go func() { _ = l.hubConn.Completion(invocation.InvocationID, nil, reason) }()
+	}
+}
+
 func (l *loop) returnInvocationResult(invocation invocationMessage, result []reflect.Value) {
 	// No invocation id, no completion
 	if invocation.InvocationID != "" {
-- 
2.43.0


From 9e342cedb763dfd625403b6a0f018f2e9da7a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 10/80] fix: do not spin while waiting for the rest of an
 invocation's result

---
 Invokeresult.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Invokeresult.go b/Invokeresult.go
index 27189a7..bfa6257 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -15,9 +15,9 @@ type InvokeResult struct {
 func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, errChan <-chan error) <-chan InvokeResult {
 	ch := make(chan InvokeResult, 1)
 	go func(ctx context.Context, ch chan InvokeResult, resultChan <-chan interface{}, errChan <-chan error) {
-		var resultChanClosed, errChanClosed bool
 	loop:
-		for !resultChanClosed || !errChanClosed {
+		// Closed channels are set to nil, they would be selected over and over again
+		for resultChan != nil || errChan != nil {
 			select {
 			case <-ctx.Done():
 				// Closing without a result would look like the success of a method without result
@@ -27,7 +27,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				break loop
 			case value, ok := <-resultChan:
 				if !ok {
-					resultChanClosed = true
+					resultChan = nil
 				} else {
 					ch <- InvokeResult{
 						Value: value,
@@ -35,7 +35,7 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				}
 			case err, ok := <-errChan:
 				if !ok {
-					errChanClosed = true
+					errChan = nil
 				} else {
 					ch <- InvokeResult{
 						Error: err,
-- 
2.43.0


From 5adffe84037e3e27baf18e2acc806f93d24af5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:33 +0000
Subject: [PATCH 11/80] fix: do not send to the result channels of a deleted
 invocation

The goroutine that delivered a completion could send after deleteInvocation
had closed the channels, which crashes the process.
---
 invokeclient.go | 68 +++++++++++++++++--------------------------------
 loop.go         |  2 +-
 2 files changed, 25 insertions(+), 45 deletions(-)

diff --git a/invokeclient.go b/invokeclient.go
index 0708286..bdec021 100644
--- a/invokeclient.go
+++ b/invokeclient.go
@@ -4,22 +4,19 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 )
 
 type invokeClient struct {
-	mx                 sync.Mutex
-	resultChans        map[string]invocationResultChans
-	protocol           hubProtocol
-	chanReceiveTimeout time.Duration
+	mx          sync.Mutex
+	resultChans map[string]invocationResultChans
+	protocol    hubProtocol
 }
 
-func newInvokeClient(protocol hubProtocol, chanReceiveTimeout time.Duration) *invokeClient {
+func newInvokeClient(protocol hubProtocol) *invokeClient {
 	return &invokeClient{
-		mx:                 sync.Mutex{},
-		resultChans:        make(map[string]invocationResultChans),
-		protocol:           protocol,
-		chanReceiveTimeout: chanReceiveTimeout,
+		mx:          sync.Mutex{},
+		resultChans: make(map[string]invocationResultChans),
+		protocol:    protocol,
 	}
 }
 
@@ -72,41 +69,24 @@ func (i *invokeClient) handlesInvocationID(invocationID string) bool {
 
 func (i *invokeClient) receiveCompletionItem(completion completionMessage) error {
 	defer i.deleteInvocation(completion.InvocationID)
+	var result interface{}
+	if completion.Error == "" && completion.Result != nil {
+		if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
+			return err
+		}
+	}
+	// The channels might be closed by deleteInvocation at any time, so use them only while holding the lock.
+	// Sending does not block: They have a buffer and there is only one completion per invocation.
 	i.mx.Lock()
+	defer i.mx.Unlock()
 	ir, ok := i.resultChans[completion.InvocationID]
-	i.mx.Unlock()
-	if ok {
-		if completion.Error != "" {
-			done := make(chan struct{})
-			go func() {
-				ir.errChan <- errors.New(completion.Error)
-				done <- struct{}{}
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent error", i.chanReceiveTimeout)}
-			}
-		}
-		if completion.Result != nil {
-			var result interface{}
-			if err := i.protocol.UnmarshalArgument(completion.Result, &result); err != nil {
-				return err
-			}
-			done := make(chan struct{})
-			go func() {
-				ir.resultChan <- result
-				close(done)
-			}()
-			select {
-			case <-done:
-				return nil
-			case <-time.After(i.chanReceiveTimeout):
-				return &hubChanTimeoutError{fmt.Sprintf("timeout (%v) waiting for hub to receive client sent value", i.chanReceiveTimeout)}
-			}
-		}
-		return nil
+	if !ok {
+		return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	}
+	if completion.Error != "" {
+		ir.errChan <- errors.New(completion.Error)
+	} else if completion.Result != nil {
+		ir.resultChan <- result
 	}
-	return fmt.Errorf(`unknown completion id "%v"`, completion.InvocationID)
+	return nil
 }
diff --git a/loop.go b/loop.go
index 5b88326..0a70b6f 100644
--- a/loop.go
+++ b/loop.go
@@ -35,7 +35,7 @@ func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
 		party:        p,
 		protocol:     protocol,
 		hubConn:      hubConn,
-		invokeClient: newInvokeClient(protocol, p.chanReceiveTimeout()),
+		invokeClient: newInvokeClient(protocol),
 		streamer:     &streamer{conn: hubConn, maxCancels: p.maxConcurrentStreams()},
 		streamClient: newStreamClient(protocol, p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams()),
 		info:         pInfo,
-- 
2.43.0


From e5c51d2616d1ea132b8ef26fe4ffc4397dede0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 12/80] fix: deliver the stream items that were received before
 the error of a stream

---
 Invokeresult.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index bfa6257..23b0b4e 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -37,9 +37,26 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 				if !ok {
 					errChan = nil
 				} else {
+					// The values which came before the error should not get lost
+				buffered:
+					for {
+						select {
+						case value, ok := <-resultChan:
+							if !ok {
+								break buffered
+							}
+							ch <- InvokeResult{
+								Value: value,
+							}
+						default:
+							break buffered
+						}
+					}
 					ch <- InvokeResult{
 						Error: err,
 					}
+					// Nothing comes after an error
+					break loop
 				}
 			}
 		}
-- 
2.43.0


From dabe87ea2ef6e1b352299d8fd1ed6b4d81148393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 13/80] fix: cancel only the stream a cancel invocation message
 is meant for

Cancels of ended or unknown streams were kept forever: They ended later streams
with the same id, and the cancels of running streams were ignored after
MaxConcurrentStreams cancels on a connection.
---
 loop.go     |  7 +++++++
 streamer.go | 27 +++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 0a70b6f..46d034b 100644
--- a/loop.go
+++ b/loop.go
@@ -223,12 +223,19 @@ func (l *loop) handleInvocationMessage(invocation invocationMessage) {
 			l.rejectInvocation(invocation,
 				fmt.Sprintf("Stream invocation of method %s which has not return value kind channel", invocation.Target))
 		} else {
+			if invocation.Type == 4 {
+				l.streamer.Prepare(invocation.InvocationID)
+			}
 			// hub method might take a long time
 			go func() {
 				result, returned := func() (result []reflect.Value, returned bool) {
 					defer l.recoverInvocationPanic(invocation)
 					return method.Call(in), true
 				}()
+				if invocation.Type == 4 && !(len(result) == 1 && result[0].Kind() == reflect.Chan) {
+					// Nothing to stream
+					l.streamer.Done(invocation.InvocationID)
+				}
 				// When the method panics, the completion has already been sent. Only clients which stream
 				// to the method need another one, it ends the connection and with it their streams.
 				if returned || len(invocation.StreamIds) > 0 {
diff --git a/streamer.go b/streamer.go
index faf8486..b2e8181 100644
--- a/streamer.go
+++ b/streamer.go
@@ -9,10 +9,24 @@ import (
 type streamer struct {
 	cancels     sync.Map
 	cancelCount int64 // atomic; tracks entries in cancels for the cap check
+	running     sync.Map
 	maxCancels  uint
 	conn        HubConnection
 }
 
+// Prepare makes the stream known, so it can be canceled before it is started.
+// Cancels from the time before, which might be for another stream with the same id, are ignored.
+func (s *streamer) Prepare(invocationID string) {
+	s.removeCancel(invocationID)
+	s.running.Store(invocationID, struct{}{})
+}
+
+// Done has to be called when a prepared stream has ended.
+func (s *streamer) Done(invocationID string) {
+	s.running.Delete(invocationID)
+	s.removeCancel(invocationID)
+}
+
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	go func() {
 	loop:
@@ -20,7 +34,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 			// Waits for channel, so might hang
 			if chanResult, ok := reflectedChannel.Recv(); ok {
 				if _, ok := s.cancels.Load(invocationID); ok {
-					s.cancels.Delete(invocationID)
+					s.Done(invocationID)
 					_ = s.conn.Completion(invocationID, nil, "")
 					break loop
 				}
@@ -29,6 +43,7 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				}
 				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
 			} else {
+				s.Done(invocationID)
 				if s.conn.Context().Err() == nil {
 					_ = s.conn.Completion(invocationID, nil, "")
 				}
@@ -38,8 +53,16 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	}()
 }
 
+func (s *streamer) removeCancel(invocationID string) {
+	if _, loaded := s.cancels.LoadAndDelete(invocationID); loaded {
+		atomic.AddInt64(&s.cancelCount, -1)
+	}
+}
+
 func (s *streamer) Stop(invocationID string) {
-	if s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
+	// The number of running streams is limited by the number of invocations, but unknown ids are not
+	if _, running := s.running.Load(invocationID); !running &&
+		s.maxCancels > 0 && atomic.LoadInt64(&s.cancelCount) >= int64(s.maxCancels) {
 		return
 	}
 	if _, loaded := s.cancels.LoadOrStore(invocationID, struct{}{}); !loaded {
-- 
2.43.0


From dda7ad66caa38a425684f6bc1fc4bd7e07a5aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 14/80] fix: close the channel of a stream only once

The channel could be closed by the message loop and by the failing invocation at
the same time. Also, starting a stream should not wait for the consumer of another one.
---
 streamclient.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/streamclient.go b/streamclient.go
index 1ee7781..ffb45a0 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -62,15 +62,20 @@ func (c *streamClient) deleteUpstreamChannel(invocationID string) {
 		upChan.Close()
 		delete(c.upstreamChannels, invocationID)
 	}
+	delete(c.runningStreams, invocationID)
 	c.mx.Unlock()
 }
 
 func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 	c.mx.Lock()
-	defer c.mx.Unlock()
-	if upChan, ok := c.upstreamChannels[streamItem.InvocationID]; ok {
+	upChan, ok := c.upstreamChannels[streamItem.InvocationID]
+	if ok {
 		// Mark the stream as running to detect illegal completion with result on this id
 		c.runningStreams[streamItem.InvocationID] = true
+	}
+	// Sending to the channel might take long, so don't block the start of other streams
+	c.mx.Unlock()
+	if ok {
 		chanVal := reflect.New(upChan.Type().Elem())
 		err := c.protocol.UnmarshalArgument(streamItem.Item, chanVal.Interface())
 		if err != nil {
@@ -82,7 +87,8 @@ func (c *streamClient) receiveStreamItem(streamItem streamItemMessage) error {
 }
 
 func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Value) error {
-	done := make(chan error)
+	// Buffered, because nobody receives after the timeout
+	done := make(chan error, 1)
 	go func() {
 		defer func() {
 			if r := recover(); r != nil {
@@ -117,7 +123,7 @@ func (c *streamClient) handlesInvocationID(invocationID string) bool {
 
 func (c *streamClient) receiveCompletionItem(completion completionMessage, invokeClient *invokeClient) error {
 	c.mx.Lock()
-	channel, ok := c.upstreamChannels[completion.InvocationID]
+	_, ok := c.upstreamChannels[completion.InvocationID]
 	c.mx.Unlock()
 	if ok {
 		var err error
@@ -141,13 +147,9 @@ func (c *streamClient) receiveCompletionItem(completion completionMessage, invok
 				}
 			}
 		}
-		channel.Close()
+		c.deleteUpstreamChannel(completion.InvocationID)
 		// Close error channel
 		invokeClient.deleteInvocation(completion.InvocationID)
-		c.mx.Lock()
-		delete(c.upstreamChannels, completion.InvocationID)
-		delete(c.runningStreams, completion.InvocationID)
-		c.mx.Unlock()
 		return err
 	}
 	return fmt.Errorf("received completion with unknown id %v", completion.InvocationID)
-- 
2.43.0


From a38d137180b5cdc82ffe27ea3d22309d10966c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 15/80] fix: allow nil arguments in PushStreams

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 46d034b..0dadc61 100644
--- a/loop.go
+++ b/loop.go
@@ -180,7 +180,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	streamIds := make([]string, 0)
 	// Parse arguments for channels and other kind of arguments
 	for _, arg := range arguments {
-		if reflect.TypeOf(arg).Kind() == reflect.Chan {
+		if arg != nil && reflect.TypeOf(arg).Kind() == reflect.Chan {
 			reflectedChannels = append(reflectedChannels, reflect.ValueOf(arg))
 			streamIds = append(streamIds, l.GetNewID())
 		} else {
-- 
2.43.0


From f827a5b8c4f517a3963471e0a5b4100f71b0bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 16/80] fix: reject invocations with StreamIds for parameters
 that are no channels

The process crashed when an invocation had less arguments, but more StreamIds
than the method has channel parameters.
---
 loop.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loop.go b/loop.go
index 0dadc61..f2ca189 100644
--- a/loop.go
+++ b/loop.go
@@ -391,6 +391,9 @@ func buildMethodArguments(method reflect.Value, invocation invocationMessage,
 			arguments[i] = arg
 		} else {
 			// it is not, so do the normal thing
+			if i-chanCount >= len(invocation.Arguments) {
+				return arguments, fmt.Errorf("to many StreamIds for channel parameters of method %v", invocation.Target)
+			}
 			arg := reflect.New(t)
 			if err := protocol.UnmarshalArgument(invocation.Arguments[i-chanCount], arg.Interface()); err != nil {
 				return arguments, err
-- 
2.43.0


From f42e1e78d5c48899e674e52f787ab276334bcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 17/80] fix: use one loop for each invocation of a client

The loop of the client changes when the client reconnects. An invocation registered
on the old loop and sent over the new one was never resolved.
---
 client.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index de8cf8b..0433a33 100644
--- a/client.go
+++ b/client.go
@@ -427,16 +427,17 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 	ch := make(chan InvokeResult, 1)
 	go func() {
 
-		if err := <-c.waitForConnected(); err != nil {
+		loop, err := c.connectedLoop()
+		if err != nil {
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
 		}
-		id := c.loop.GetNewID()
-		resultCh, errCh := c.loop.invokeClient.newInvocation(id)
+		id := loop.GetNewID()
+		resultCh, errCh := loop.invokeClient.newInvocation(id)
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
@@ -457,15 +458,16 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 	errCh := make(chan error, 1)
 	go func() {
-		if err := <-c.waitForConnected(); err != nil {
+		loop, err := c.connectedLoop()
+		if err != nil {
 			errCh <- err
 			close(errCh)
 			return
 		}
-		id := c.loop.GetNewID()
-		_, sendErrCh := c.loop.invokeClient.newInvocation(id)
-		if err := c.loop.hubConn.SendInvocation(id, method, arguments); err != nil {
-			c.loop.invokeClient.deleteInvocation(id)
+		id := loop.GetNewID()
+		_, sendErrCh := loop.invokeClient.newInvocation(id)
+		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
+			loop.invokeClient.deleteInvocation(id)
 			errCh <- err
 			close(errCh)
 			return
@@ -483,12 +485,13 @@ func (c *client) Send(method string, arguments ...interface{}) <-chan error {
 func (c *client) PullStream(method string, arguments ...interface{}) <-chan InvokeResult {
 	irCh := make(chan InvokeResult, 1)
 	go func() {
-		if err := <-c.waitForConnected(); err != nil {
+		loop, err := c.connectedLoop()
+		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
 			return
 		}
-		pullCh := c.loop.PullStream(method, c.loop.GetNewID(), arguments...)
+		pullCh := loop.PullStream(method, loop.GetNewID(), arguments...)
 		go func() {
 			for ir := range pullCh {
 				irCh <- ir
@@ -505,12 +508,13 @@ func (c *client) PullStream(method string, arguments ...interface{}) <-chan Invo
 func (c *client) PushStreams(method string, arguments ...interface{}) <-chan InvokeResult {
 	irCh := make(chan InvokeResult, 1)
 	go func() {
-		if err := <-c.waitForConnected(); err != nil {
+		loop, err := c.connectedLoop()
+		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
 			return
 		}
-		pushCh, err := c.loop.PushStreams(method, c.loop.GetNewID(), arguments...)
+		pushCh, err := loop.PushStreams(method, loop.GetNewID(), arguments...)
 		if err != nil {
 			irCh <- InvokeResult{Error: err}
 			close(irCh)
@@ -526,6 +530,17 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 	return irCh
 }
 
+// connectedLoop waits until the client is connected and returns the loop of the current connection.
+// An invocation should use only this loop, the loop of the client changes when the client reconnects.
+func (c *client) connectedLoop() (*loop, error) {
+	if err := <-c.waitForConnected(); err != nil {
+		return nil, err
+	}
+	c.mx.RLock()
+	defer c.mx.RUnlock()
+	return c.loop, nil
+}
+
 func (c *client) waitForConnected() <-chan error {
 	return c.WaitForState(context.Background(), ClientConnected)
 }
-- 
2.43.0


From 08fd12689c641d3607a97345b4825e2ddd1009cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 18/80] fix: notify the observers of the client state in order
 and without blocking the client

The notifications were sent while holding the lock of the client, so an observer
which did not receive, or called the client while receiving, blocked it.
---
 client.go | 116 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 31 deletions(-)

diff --git a/client.go b/client.go
index 0433a33..bd0c927 100644
--- a/client.go
+++ b/client.go
@@ -122,13 +122,12 @@ func NewClient(ctx context.Context, options ...func(Party) error) (Client, error
 	ctx, cancelFunc = context.WithCancel(ctx)
 	info, dbg := buildInfoDebugLogger(log.NewLogfmtLogger(os.Stderr), true)
 	c := &client{
-		state:            ClientCreated,
-		stateChangeChans: make([]chan ClientState, 0),
-		format:           "json",
-		partyBase:        newPartyBase(ctx, info, dbg),
-		lastID:           -1,
-		backoffFactory:   func() backoff.BackOff { return backoff.NewExponentialBackOff() },
-		cancelFunc:       cancelFunc,
+		state:          ClientCreated,
+		format:         "json",
+		partyBase:      newPartyBase(ctx, info, dbg),
+		lastID:         -1,
+		backoffFactory: func() backoff.BackOff { return backoff.NewExponentialBackOff() },
+		cancelFunc:     cancelFunc,
 	}
 	for _, option := range options {
 		if option != nil {
@@ -155,7 +154,7 @@ type client struct {
 	conn              Connection
 	connectionFactory func() (Connection, error)
 	state             ClientState
-	stateChangeChans  []chan ClientState
+	stateObservers    []*stateObserver
 	err               error
 	format            string
 	loop              *loop
@@ -322,47 +321,102 @@ func (c *client) setState(state ClientState) {
 	c.mx.Lock()
 	defer c.mx.Unlock()
 
+	if c.state == state {
+		return
+	}
 	c.state = state
 	_ = c.dbg.Log("state", state)
 
-	for _, ch := range c.stateChangeChans {
-		go func(ch chan ClientState, state ClientState) {
-			c.mx.Lock()
-			defer c.mx.Unlock()
-
-			for _, cch := range c.stateChangeChans {
-				if cch == ch {
-					select {
-					case ch <- state:
-					case <-c.ctx.Done():
-					}
-				}
-			}
-		}(ch, state)
+	for _, observer := range c.stateObservers {
+		observer.push(state)
 	}
 }
 
 func (c *client) ObserveStateChanged(ch chan ClientState) context.CancelFunc {
+	observer := newStateObserver(ch)
+
 	c.mx.Lock()
 	defer c.mx.Unlock()
-
-	c.stateChangeChans = append(c.stateChangeChans, ch)
+	c.stateObservers = append(c.stateObservers, observer)
 
 	return func() {
-		c.cancelObserveStateChanged(ch)
+		c.cancelObserveStateChanged(observer)
 	}
 }
 
-func (c *client) cancelObserveStateChanged(ch chan ClientState) {
+func (c *client) cancelObserveStateChanged(observer *stateObserver) {
 	c.mx.Lock()
-	defer c.mx.Unlock()
-	for i, cch := range c.stateChangeChans {
-		if cch == ch {
-			c.stateChangeChans = append(c.stateChangeChans[:i], c.stateChangeChans[i+1:]...)
-			close(ch)
+	for i, o := range c.stateObservers {
+		if o == observer {
+			c.stateObservers = append(c.stateObservers[:i], c.stateObservers[i+1:]...)
 			break
 		}
 	}
+	c.mx.Unlock()
+	observer.cancel()
+}
+
+// stateObserver delivers the states of the client to a channel, in the order in which they were reached.
+// When nobody receives from the channel, only the observer waits, but neither the client nor other observers.
+type stateObserver struct {
+	ch         chan ClientState
+	mx         sync.Mutex
+	pending    []ClientState
+	delivering bool
+	canceled   chan struct{}
+	cancelOnce sync.Once
+	wg         sync.WaitGroup
+}
+
+func newStateObserver(ch chan ClientState) *stateObserver {
+	return &stateObserver{ch: ch, canceled: make(chan struct{})}
+}
+
+func (o *stateObserver) push(state ClientState) {
+	o.mx.Lock()
+	defer o.mx.Unlock()
+	select {
+	case <-o.canceled:
+		return
+	default:
+	}
+	o.pending = append(o.pending, state)
+	if !o.delivering {
+		o.delivering = true
+		o.wg.Add(1)
+		go o.deliver()
+	}
+}
+
+func (o *stateObserver) deliver() {
+	defer o.wg.Done()
+	for {
+		o.mx.Lock()
+		if len(o.pending) == 0 {
+			o.delivering = false
+			o.mx.Unlock()
+			return
+		}
+		state := o.pending[0]
+		o.pending = o.pending[1:]
+		o.mx.Unlock()
+		select {
+		case o.ch <- state:
+		case <-o.canceled:
+			return
+		}
+	}
+}
+
+// cancel ends the delivery and closes the channel
+func (o *stateObserver) cancel() {
+	o.cancelOnce.Do(func() {
+		o.mx.Lock()
+		close(o.canceled)
+		o.mx.Unlock()
+		o.wg.Wait()
+		close(o.ch)
+	})
 }
 
 func (c *client) Err() error {
-- 
2.43.0


From a6197408a2ddeb0d1e1f935f8a8b52bedee45dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 19/80] fix: do not change to ClientConnected after the
 connection has ended

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index bd0c927..bfc88b2 100644
--- a/client.go
+++ b/client.go
@@ -244,12 +244,16 @@ func (c *client) run() error {
 	c.mx.Unlock()
 	// Broadcast when loop is connected
 	isLoopConnected := make(chan struct{}, 1)
+	stateSet := make(chan struct{})
 	go func() {
+		defer close(stateSet)
 		<-isLoopConnected
 		c.setState(ClientConnected)
 	}()
 	// Run the loop
 	err = loop.Run(isLoopConnected)
+	// ClientConnected should not be set after the states which follow the end of the loop
+	<-stateSet
 
 	if err == nil {
 		err = loop.hubConn.Close("", false) // allowReconnect value is ignored as servers never initiate a connection
-- 
2.43.0


From 8a210cc2f3cf491899fd078b24ebddebad6168ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 20/80] fix: change to ClientClosed when the client is canceled
 while waiting for the next reconnect

---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index bfc88b2..2ce8577 100644
--- a/client.go
+++ b/client.go
@@ -215,6 +215,8 @@ func (c *client) Start() {
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
+				c.setErr(c.ctx.Err())
+				c.setState(ClientClosed)
 				return
 			}
 			c.setState(ClientConnecting)
-- 
2.43.0


From 66596592ad626a4b2908c6834c0a54f9141b49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 21/80] fix: do not hold the lock of the client while it is
 connecting

State, Err, WaitForState and ObserveStateChanged blocked until the handshake was done.
---
 client.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/client.go b/client.go
index 2ce8577..c4973d8 100644
--- a/client.go
+++ b/client.go
@@ -290,31 +290,29 @@ func (c *client) shouldClientEnd() bool {
 }
 
 func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
-	return func() (hubProtocol, error) {
-		c.mx.Lock()
-		defer c.mx.Unlock()
+	// Connecting and handshake might take long. Don't hold the lock, it blocks all methods of the client.
+	c.mx.RLock()
+	conn := c.conn
+	c.mx.RUnlock()
 
-		if c.conn == nil {
-			if c.connectionFactory == nil {
-				return nil, ErrUnableToConnect
-			}
-			var err error
-			c.conn, err = c.connectionFactory()
-			if err != nil {
-				return nil, err
-			}
+	if conn == nil {
+		if c.connectionFactory == nil {
+			return nil, ErrUnableToConnect
 		}
-		// Pass maximum receive message size to a potential websocket connection
-		if wsConn, ok := c.conn.(*webSocketConnection); ok {
-			wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-		}
-		protocol, err := c.processHandshake()
+		var err error
+		conn, err = c.connectionFactory()
 		if err != nil {
 			return nil, err
 		}
-
-		return protocol, nil
-	}()
+		c.mx.Lock()
+		c.conn = conn
+		c.mx.Unlock()
+	}
+	// Pass maximum receive message size to a potential websocket connection
+	if wsConn, ok := conn.(*webSocketConnection); ok {
+		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
+	}
+	return c.processHandshake()
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From 19dc108e4962d6b0f630aeab69cf058798e53027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 22/80] fix: use a new connection for the reconnect after a
 failed handshake

---
 client.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c4973d8..c46156a 100644
--- a/client.go
+++ b/client.go
@@ -312,7 +312,15 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 	if wsConn, ok := conn.(*webSocketConnection); ok {
 		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 	}
-	return c.processHandshake()
+	protocol, err := c.processHandshake()
+	if err != nil {
+		// Don't try to reconnect with a connection with failed handshake
+		c.mx.Lock()
+		c.conn = nil
+		c.mx.Unlock()
+		return nil, err
+	}
+	return protocol, nil
 }
 
 func (c *client) State() ClientState {
-- 
2.43.0


From f895c7b75f8916eedaf08f66c405f56dd1285077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 23/80] fix: do not take the type of a JSON message from the
 message before

---
 jsonhubprotocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index ce1e7bd..1c2006f 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -70,9 +70,9 @@ func (j *jsonHubProtocol) ParseMessages(reader io.Reader, remainBuf *bytes.Buffe
 	if err != nil {
 		return nil, err
 	}
-	message := hubMessage{}
 	messages = make([]interface{}, 0)
 	for _, frame := range frames {
+		message := hubMessage{}
 		err = json.Unmarshal(frame, &message)
 		_ = j.dbg.Log(evt, "read", msg, string(frame))
 		if err != nil {
-- 
2.43.0


From b3536ebd11d8cb0c28eb6988afd8f965b94c43f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 24/80] fix: apply the maximum receive message size to
 messages, not to what is received at once

---
 jsonhubprotocol.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index 1c2006f..a12b76e 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -154,7 +154,7 @@ func (j *jsonHubProtocol) parseMessage(messageType int, text []byte) (message in
 }
 
 // readJSONFrames reads all complete frames (delimited by 0x1e) from the reader and puts the remaining bytes into remainBuf.
-// maxSize is the maximum number of bytes that may accumulate before a delimiter; 0 means unlimited.
+// maxSize is the maximum number of bytes of a frame; 0 means unlimited.
 func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][]byte, error) {
 	p := make([]byte, 1<<15)
 	buf := &bytes.Buffer{}
@@ -168,13 +168,18 @@ func readJSONFrames(reader io.Reader, remainBuf *bytes.Buffer, maxSize int) ([][
 		}
 		if n > 0 {
 			_, _ = buf.Write(p[:n])
-			if maxSize > 0 && buf.Len() > maxSize {
-				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
-			}
 			frames, err := parseJSONFrames(buf)
 			if err != nil {
 				return nil, err
 			}
+			// Several frames might have been received at once. Each one has its own size, and so has the incomplete one
+			tooLarge := maxSize > 0 && buf.Len() > maxSize
+			for _, frame := range frames {
+				tooLarge = tooLarge || maxSize > 0 && len(frame) > maxSize
+			}
+			if tooLarge {
+				return nil, fmt.Errorf("JSON frame buffer exceeded maximum receive message size %d", maxSize)
+			}
 			if len(frames) > 0 {
 				_, _ = remainBuf.ReadFrom(buf)
 				return frames, nil
-- 
2.43.0


From 4d05c9a57ab258e7ec40cdb9204085d85123b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 25/80] fix: process the messages that were received together
 with the handshake

They were dropped. Also, waiting for the handshake ends when the connection is closed.
---
 client.go          | 52 +++++++++++++++++++++++-----------------------
 hubconnection.go   | 12 +++++++++++
 jsonhubprotocol.go | 17 +++++++++++++++
 loop.go            |  5 +++--
 server.go          | 40 +++++++++++++++++------------------
 5 files changed, 78 insertions(+), 48 deletions(-)

diff --git a/client.go b/client.go
index c46156a..a291f0c 100644
--- a/client.go
+++ b/client.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -235,12 +234,12 @@ func (c *client) Stop() {
 
 func (c *client) run() error {
 	// negotiate and so on
-	protocol, err := c.setupConnectionAndProtocol()
+	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
 		return err
 	}
 
-	loop := newLoop(c, c.conn, protocol)
+	loop := newLoop(c, c.conn, protocol, received)
 	c.mx.Lock()
 	c.loop = loop
 	c.mx.Unlock()
@@ -289,7 +288,8 @@ func (c *client) shouldClientEnd() bool {
 	return false
 }
 
-func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
+// setupConnectionAndProtocol returns the protocol and the bytes which have been received together with the handshake
+func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
 	// Connecting and handshake might take long. Don't hold the lock, it blocks all methods of the client.
 	c.mx.RLock()
 	conn := c.conn
@@ -297,12 +297,12 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 
 	if conn == nil {
 		if c.connectionFactory == nil {
-			return nil, ErrUnableToConnect
+			return nil, nil, ErrUnableToConnect
 		}
 		var err error
 		conn, err = c.connectionFactory()
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 		c.mx.Lock()
 		c.conn = conn
@@ -312,15 +312,15 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, error) {
 	if wsConn, ok := conn.(*webSocketConnection); ok {
 		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
 	}
-	protocol, err := c.processHandshake()
+	protocol, received, err := c.processHandshake()
 	if err != nil {
 		// Don't try to reconnect with a connection with failed handshake
 		c.mx.Lock()
 		c.conn = nil
 		c.mx.Unlock()
-		return nil, err
+		return nil, nil, err
 	}
-	return protocol, nil
+	return protocol, received, nil
 }
 
 func (c *client) State() ClientState {
@@ -655,9 +655,9 @@ func (c *client) prefixLoggers(connectionID string) (info StructuredLogger, dbg
 			"hub", t)
 }
 
-func (c *client) processHandshake() (hubProtocol, error) {
+func (c *client) processHandshake() (hubProtocol, []byte, error) {
 	if err := c.sendHandshakeRequest(); err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 	return c.receiveHandshakeResponse()
 }
@@ -679,31 +679,31 @@ func (c *client) sendHandshakeRequest() error {
 	return nil
 }
 
-func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
+func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 	info, dbg := c.prefixLoggers(c.conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
+	conn := c.conn
+	readHandshakeChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(c.conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, received, err := readHandshake(conn)
+		readHandshakeChan <- []interface{}{rawHandshake, received, err}
 	}()
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return nil, result[1].(error)
+	case result := <-readHandshakeChan:
+		if result[2] != nil {
+			return nil, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
+		rawHandshake := result[0].([]byte)
 		response := handshakeResponse{}
-		if err := json.Unmarshal(rawHandshake[0], &response); err != nil {
+		if err := json.Unmarshal(rawHandshake, &response); err != nil {
 			// Malformed handshake
-			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake[0]), "error", err)
-			return nil, err
+			_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", err)
+			return nil, nil, err
 		} else {
 			if response.Error != "" {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
-				return nil, errors.New(response.Error)
+				return nil, nil, errors.New(response.Error)
 			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
@@ -717,9 +717,9 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, error) {
 				_, pDbg := c.loggers()
 				protocol.setDebugLogger(pDbg)
 			}
-			return protocol, nil
+			return protocol, result[1].([]byte), nil
 		}
 	case <-ctx.Done():
-		return nil, ctx.Err()
+		return nil, nil, ctx.Err()
 	}
 }
diff --git a/hubconnection.go b/hubconnection.go
index 8f8808c..c464bcd 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -33,6 +33,12 @@ type receiveResult struct {
 }
 
 func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger) HubConnection {
+	return newStartedHubConnection(connection, protocol, maximumReceiveMessageSize, info, nil)
+}
+
+// newStartedHubConnection builds a HubConnection for a connection from which the bytes in received have already been read
+func newStartedHubConnection(connection Connection, protocol hubProtocol, maximumReceiveMessageSize uint, info StructuredLogger,
+	received []byte) HubConnection {
 	ctx, cancelFunc := context.WithCancel(connection.Context())
 	c := &defaultHubConnection{
 		ctx:                       ctx,
@@ -43,6 +49,7 @@ func newHubConnection(connection Connection, protocol hubProtocol, maximumReceiv
 		maximumReceiveMessageSize: maximumReceiveMessageSize,
 		items:                     &sync.Map{},
 		info:                      info,
+		received:                  received,
 	}
 	if connectionWithTransferMode, ok := connection.(ConnectionWithTransferMode); ok {
 		connectionWithTransferMode.SetTransferMode(protocol.transferMode())
@@ -60,6 +67,7 @@ type defaultHubConnection struct {
 	items                     *sync.Map
 	lastWriteStamp            time.Time
 	info                      StructuredLogger
+	received                  []byte
 }
 
 func (c *defaultHubConnection) Items() *sync.Map {
@@ -111,6 +119,10 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 
 	p := make([]byte, c.maximumReceiveMessageSize)
 	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+		if len(c.received) > 0 {
+			// Errors will occur again with the next Write
+			_, _ = writer.Write(c.received)
+		}
 	loop:
 		for {
 			select {
diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index a12b76e..e6b37bf 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -205,6 +205,23 @@ func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
 	return frames, nil
 }
 
+// readHandshake reads the handshake frame from the reader. The messages after the handshake might already have been
+// received together with it. They are in general not JSON, so they are returned as they are.
+func readHandshake(reader io.Reader) (handshake []byte, received []byte, err error) {
+	p := make([]byte, 1<<15)
+	var buf []byte
+	for {
+		n, err := reader.Read(p)
+		buf = append(buf, p[:n]...)
+		if i := bytes.IndexByte(buf, 0x1e); i >= 0 {
+			return buf[:i], buf[i+1:], nil
+		}
+		if err != nil {
+			return nil, nil, err
+		}
+	}
+}
+
 // WriteMessage writes a message as JSON to the specified writer
 func (j *jsonHubProtocol) WriteMessage(message interface{}, writer io.Writer) error {
 	var b []byte
diff --git a/loop.go b/loop.go
index f2ca189..61078a3 100644
--- a/loop.go
+++ b/loop.go
@@ -24,13 +24,14 @@ type loop struct {
 	closeMessage *closeMessage
 }
 
-func newLoop(p Party, conn Connection, protocol hubProtocol) *loop {
+// newLoop creates the loop for a connection. received are the bytes which have been received together with the handshake.
+func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *loop {
 	protocol = reflect.New(reflect.ValueOf(protocol).Elem().Type()).Interface().(hubProtocol)
 	_, dbg := p.loggers()
 	protocol.setDebugLogger(dbg)
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
-	hubConn := newHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo)
+	hubConn := newStartedHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo, received)
 	return &loop{
 		party:        p,
 		protocol:     protocol,
diff --git a/server.go b/server.go
index 7989887..3917943 100644
--- a/server.go
+++ b/server.go
@@ -1,7 +1,6 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -127,14 +126,14 @@ func (s *server) MapHTTP(routerFactory func() MappableRouter, path string) {
 // or the servers' context is canceled.
 func (s *server) Serve(conn Connection) error {
 
-	protocol, err := s.processHandshake(conn)
+	protocol, received, err := s.processHandshake(conn)
 	if err != nil {
 		info, _ := s.prefixLoggers("")
 		_ = info.Log(evt, "processHandshake", "connectionId", conn.ConnectionID(), "error", err, react, "do not connect")
 		return err
 	}
 
-	return newLoop(s, conn, protocol).Run(make(chan struct{}, 1))
+	return newLoop(s, conn, protocol, received).Run(make(chan struct{}, 1))
 }
 
 func (s *server) HubClients() HubClients {
@@ -246,35 +245,36 @@ func (s *server) newConnectionHubContext(hubConn HubConnection) HubContext {
 	}
 }
 
-func (s *server) processHandshake(conn Connection) (hubProtocol, error) {
-	if request, err := s.receiveHandshakeRequest(conn); err != nil {
-		return nil, err
-	} else {
-		return s.sendHandshakeResponse(conn, request)
+// processHandshake returns the protocol and the bytes which have been received together with the handshake
+func (s *server) processHandshake(conn Connection) (hubProtocol, []byte, error) {
+	request, received, err := s.receiveHandshakeRequest(conn)
+	if err != nil {
+		return nil, nil, err
 	}
+	protocol, err := s.sendHandshakeResponse(conn, request)
+	return protocol, received, err
 }
 
-func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, error) {
+func (s *server) receiveHandshakeRequest(conn Connection) (handshakeRequest, []byte, error) {
 	_, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelRead := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelRead()
-	readJSONFramesChan := make(chan []interface{}, 1)
+	readHandshakeChan := make(chan []interface{}, 1)
 	go func() {
-		var remainBuf bytes.Buffer
-		rawHandshake, err := readJSONFrames(conn, &remainBuf, 0)
-		readJSONFramesChan <- []interface{}{rawHandshake, err}
+		rawHandshake, received, err := readHandshake(conn)
+		readHandshakeChan <- []interface{}{rawHandshake, received, err}
 	}()
 	request := handshakeRequest{}
 	select {
-	case result := <-readJSONFramesChan:
-		if result[1] != nil {
-			return request, result[1].(error)
+	case result := <-readHandshakeChan:
+		if result[2] != nil {
+			return request, nil, result[2].(error)
 		}
-		rawHandshake := result[0].([][]byte)
-		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake[0]))
-		return request, json.Unmarshal(rawHandshake[0], &request)
+		rawHandshake := result[0].([]byte)
+		_ = dbg.Log(evt, "handshake received", "msg", string(rawHandshake))
+		return request, result[1].([]byte), json.Unmarshal(rawHandshake, &request)
 	case <-ctx.Done():
-		return request, ctx.Err()
+		return request, nil, ctx.Err()
 	}
 }
 
-- 
2.43.0


From 08c2b7b0cf5a13b19231e1593c8bb6e3ce1bfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 26/80] fix: process the messages that were received before the
 connection ended

The read error overtook them, so e.g. a close message or a completion, sent right
before the connection was closed, could get lost.
---
 hubconnection.go | 97 +++++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 55 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index c464bcd..ecd1042 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -3,6 +3,7 @@ package signalr
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -107,8 +108,6 @@ func (c *defaultHubConnection) Abort() {
 
 func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	recvChan := make(chan receiveResult, 20)
-	// Prepare cleanup
-	writerDone := make(chan struct{}, 1)
 	// the pipe connects the goroutine which reads from the connection and the goroutine which parses the read data
 	reader, writer := io.Pipe()
 	go func() {
@@ -118,77 +117,65 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}()
 
 	p := make([]byte, c.maximumReceiveMessageSize)
-	go func(ctx context.Context, connection io.Reader, writer io.Writer, recvChan chan<- receiveResult, writerDone chan<- struct{}) {
+	go func(ctx context.Context, connection io.Reader, writer *io.PipeWriter) {
 		if len(c.received) > 0 {
 			// Errors will occur again with the next Write
 			_, _ = writer.Write(c.received)
 		}
-	loop:
-		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			default:
-				n, err := connection.Read(p)
-				if err != nil {
-					select {
-					case recvChan <- receiveResult{err: err}:
-					case <-ctx.Done():
-						break loop
-					}
-				}
-				if n > 0 {
-					_, err = writer.Write(p[:n])
-					if err != nil {
-						select {
-						case recvChan <- receiveResult{err: err}:
-						case <-ctx.Done():
-							break loop
-						}
-					}
+		for ctx.Err() == nil {
+			n, err := connection.Read(p)
+			if n > 0 {
+				if _, writeErr := writer.Write(p[:n]); writeErr != nil {
+					// The pipe has been closed
+					return
 				}
 			}
+			if err != nil {
+				// The messages which came before the error should be parsed before the error is reported
+				_ = writer.CloseWithError(&connectionReadError{err})
+				return
+			}
 		}
-		// The pipe writer is done
-		close(writerDone)
-	}(c.ctx, c.connection, writer, recvChan, writerDone)
+	}(c.ctx, c.connection, writer)
 	// parse
-	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult, writerDone <-chan struct{}) {
+	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult) {
 		remainBuf := bytes.Buffer{}
-	loop:
-		for {
-			select {
-			case <-ctx.Done():
-				break loop
-			case <-writerDone:
-				break loop
-			default:
-				messages, err := c.protocol.ParseMessages(reader, &remainBuf)
-				if err != nil {
+		for ctx.Err() == nil {
+			messages, err := c.protocol.ParseMessages(reader, &remainBuf)
+			if err != nil {
+				var readErr *connectionReadError
+				isReadErr := errors.As(err, &readErr)
+				if isReadErr {
+					err = readErr.error
+				}
+				select {
+				case recvChan <- receiveResult{err: err}:
+				case <-ctx.Done():
+					return
+				}
+				if isReadErr {
+					return
+				}
+			} else {
+				for _, message := range messages {
 					select {
-					case recvChan <- receiveResult{err: err}:
+					case recvChan <- receiveResult{message: message}:
 					case <-ctx.Done():
-						break loop
-					case <-writerDone:
-						break loop
-					}
-				} else {
-					for _, message := range messages {
-						select {
-						case recvChan <- receiveResult{message: message}:
-						case <-ctx.Done():
-							break loop
-						case <-writerDone:
-							break loop
-						}
+						return
 					}
 				}
 			}
 		}
-	}(c.ctx, reader, recvChan, writerDone)
+	}(c.ctx, reader, recvChan)
 	return recvChan
 }
 
+// connectionReadError wraps errors of the connection while they are on their way through the pipe.
+// Otherwise, protocols might misinterpret io.EOF
+type connectionReadError struct {
+	error
+}
+
 func (c *defaultHubConnection) SendInvocation(id string, target string, args []interface{}) error {
 	if args == nil {
 		args = make([]interface{}, 0)
-- 
2.43.0


From 7648abd799a5cd32289c167fc4bec52818263e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 27/80] fix: deliver one result for PushStreams

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index a291f0c..9661c0a 100644
--- a/client.go
+++ b/client.go
@@ -587,10 +587,13 @@ func (c *client) PushStreams(method string, arguments ...interface{}) <-chan Inv
 			return
 		}
 		go func() {
-			for ir := range pushCh {
+			// As with Invoke, there is one result
+			if ir, ok := <-pushCh; ok {
 				irCh <- ir
 			}
 			close(irCh)
+			for range pushCh {
+			}
 		}()
 	}()
 	return irCh
-- 
2.43.0


From 9b9d6eb88a86cfe774931404bf4369a9c0768c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 28/80] fix: use one hub per connection and call OnDisconnected
 after OnConnected

---
 server.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 3917943..ba3eb3d 100644
--- a/server.go
+++ b/server.go
@@ -44,6 +44,7 @@ type server struct {
 	perConnectionHubFactory func(connectionID string) HubInterface
 	connectionHubs          map[string]HubInterface
 	connectionHubsMutex     sync.RWMutex
+	hubsConnected           sync.Map // HubConnection -> chan struct{}, closed when OnConnected of its hub has ended
 	lifetimeManager         HubLifetimeManager
 	defaultHubClients       *defaultHubClients
 	groupManager            GroupManager
@@ -150,16 +151,32 @@ func (s *server) availableTransports() []TransportType {
 
 func (s *server) onConnected(hc HubConnection) {
 	s.lifetimeManager.OnConnected(hc)
+	connected := make(chan struct{})
+	s.hubsConnected.Store(hc, connected)
+	// Get the hub before any message is processed, so there is one per connection hub only
+	hub := s.lifeCycleHub(hc)
 	go func() {
+		defer close(connected)
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnConnected(hc.ConnectionID())
+		if hub != nil {
+			hub.OnConnected(hc.ConnectionID())
+		}
 	}()
 }
 
 func (s *server) onDisconnected(hc HubConnection) {
+	// Get the hub before the per connection hub is removed
+	hub := s.lifeCycleHub(hc)
+	connected, _ := s.hubsConnected.LoadAndDelete(hc)
 	go func() {
 		defer s.recoverHubLifeCyclePanic()
-		s.invocationTarget(hc).(HubInterface).OnDisconnected(hc.ConnectionID())
+		if connected != nil {
+			// OnConnected might still run
+			<-connected.(chan struct{})
+		}
+		if hub != nil {
+			hub.OnDisconnected(hc.ConnectionID())
+		}
 	}()
 	s.lifetimeManager.OnDisconnected(hc)
 
@@ -167,6 +184,12 @@ func (s *server) onDisconnected(hc HubConnection) {
 	s.removeConnectionHub(hc.ConnectionID())
 }
 
+// lifeCycleHub returns the hub for OnConnected and OnDisconnected or nil, if creating it panics
+func (s *server) lifeCycleHub(hc HubConnection) (hub HubInterface) {
+	defer s.recoverHubLifeCyclePanic()
+	return s.invocationTarget(hc).(HubInterface)
+}
+
 func (s *server) invocationTarget(conn HubConnection) interface{} {
 	if s.perConnectionHubFactory != nil {
 		// Use per-connection hub factory
-- 
2.43.0


From fd81a88a6c979d1925abc3829301c7d8ec82d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 29/80] fix: do not let the other side call the lifecycle
 methods of hubs and receivers

---
 loop.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 61078a3..c02de31 100644
--- a/loop.go
+++ b/loop.go
@@ -415,7 +415,7 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 		name = strings.ToLower(name)
 		for i := 0; i < hubType.NumMethod(); i++ {
 			// Search in public methods
-			if m := hubType.Method(i); strings.ToLower(m.Name) == name {
+			if m := hubType.Method(i); strings.ToLower(m.Name) == name && !isLifeCycleMethod(target, m.Name) {
 				return hubValue.Method(i), true
 			}
 		}
@@ -423,6 +423,17 @@ func getMethod(target interface{}, name string) (reflect.Value, bool) {
 	return reflect.Value{}, false
 }
 
+// isLifeCycleMethod tells if the method is called by the server itself and must not be called by the other side
+func isLifeCycleMethod(target interface{}, name string) bool {
+	switch target.(type) {
+	case HubInterface:
+		return name == "Initialize" || name == "OnConnected" || name == "OnDisconnected"
+	case ReceiverInterface:
+		return name == "Init"
+	}
+	return false
+}
+
 func fmtMsg(message interface{}) string {
 	switch msg := message.(type) {
 	case invocationMessage:
-- 
2.43.0


From 3f532c939bfaaaaeb824dfab8f8bf3b955d0d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 30/80] fix: do not allocate memory for messagepack elements
 that are not there

---
 messagepackhubprotocol.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/messagepackhubprotocol.go b/messagepackhubprotocol.go
index 2609697..968b8a7 100644
--- a/messagepackhubprotocol.go
+++ b/messagepackhubprotocol.go
@@ -23,6 +23,11 @@ func (m *messagePackHubProtocol) ParseMessages(reader io.Reader, remainBuf *byte
 	}
 	messages := make([]interface{}, 0)
 	for _, frame := range frames {
+		// The decoder allocates memory for the number of elements that arrays and maps announce.
+		// Skip allocates nothing and fails when not all of these elements are in the frame.
+		if err := msgpack.NewDecoder(bytes.NewReader(frame)).Skip(); err != nil {
+			return nil, err
+		}
 		message, err := m.parseMessage(bytes.NewBuffer(frame))
 		if err != nil {
 			return nil, err
@@ -92,9 +97,7 @@ func (m *messagePackHubProtocol) parseFrames(buf *bytes.Buffer) ([][]byte, error
 func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, error) {
 	decoder := msgpack.NewDecoder(buf)
 	// Default map decoding expects all maps to have string keys
-	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
-		return decoder.DecodeUntypedMap()
-	})
+	decoder.SetMapDecoder(decodeMap)
 	msgLen, err := decoder.DecodeArrayLen()
 	if err != nil {
 		return nil, err
@@ -238,6 +241,16 @@ func (m *messagePackHubProtocol) parseMessage(buf *bytes.Buffer) (interface{}, e
 	return msg, nil
 }
 
+// decodeMap decodes maps with keys of any type, except those which are no valid keys in go
+func decodeMap(decoder *msgpack.Decoder) (result interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			result, err = nil, fmt.Errorf("invalid map: %v", r)
+		}
+	}()
+	return decoder.DecodeUntypedMap()
+}
+
 func (m *messagePackHubProtocol) decodeInvocationID(decoder *msgpack.Decoder) (string, error) {
 	rawID, err := decoder.DecodeInterface()
 	if err != nil {
@@ -413,9 +426,7 @@ func (m *messagePackHubProtocol) UnmarshalArgument(src interface{}, dst interfac
 	defer msgpack.PutDecoder(decoder)
 	decoder.Reset(buf)
 	// Default map decoding expects all maps to have string keys
-	decoder.SetMapDecoder(func(decoder *msgpack.Decoder) (interface{}, error) {
-		return decoder.DecodeUntypedMap()
-	})
+	decoder.SetMapDecoder(decodeMap)
 	// Ensure uppercase/lowercase mapping for struct member names
 	decoder.SetCustomStructTag("json")
 	if err := decoder.Decode(dst); err != nil {
-- 
2.43.0


From 75f15d83653108e70375e6b21741fb8956bb9d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 31/80] fix: refuse an upload stream with an id that is in use

---
 streamclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamclient.go b/streamclient.go
index ffb45a0..fadb710 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -38,6 +38,9 @@ func (c *streamClient) buildChannelArgument(invocation invocationMessage, argTyp
 		if c.maxConcurrentStreams > 0 && uint(len(c.upstreamChannels)) >= c.maxConcurrentStreams {
 			return reflect.Value{}, true, fmt.Errorf("maximum concurrent streams (%d) reached", c.maxConcurrentStreams)
 		}
+		if _, ok := c.upstreamChannels[invocation.StreamIds[chanCount]]; ok {
+			return reflect.Value{}, true, fmt.Errorf("stream id %q is already in use", invocation.StreamIds[chanCount])
+		}
 		// MakeChan does only accept bidirectional channels, and we need to Send to this channel anyway
 		arg = reflect.MakeChan(reflect.ChanOf(reflect.BothDir, argType.Elem()), int(c.streamBufferCapacity))
 		c.upstreamChannels[invocation.StreamIds[chanCount]] = arg
-- 
2.43.0


From bee2c57f22f056ea864dea1f178fe1da5eb7fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:53 +0000
Subject: [PATCH 32/80] fix: do not queue pings for a connection that does not
 accept them

---
 loop.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/loop.go b/loop.go
index c02de31..5d9cbec 100644
--- a/loop.go
+++ b/loop.go
@@ -76,7 +76,8 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-	pingErr := make(chan error, 1)
+	pingResult := make(chan error, 1)
+	pinging := false
 msgLoop:
 	for {
 	pingLoop:
@@ -118,20 +119,17 @@ msgLoop:
 				if nextPingIn <= 0 {
 					// The ping blocks when the other side does not read anymore. This must not block
 					// the loop, because the loop has to detect the timeout then.
-					go func() {
-						if err := l.hubConn.Ping(); err != nil {
-							select {
-							case pingErr <- err:
-							default:
-							}
-						}
-					}()
+					if !pinging {
+						pinging = true
+						go func() { pingResult <- l.hubConn.Ping() }()
+					}
 					keepAliveTicker.Reset(l.party.keepAliveInterval())
 				} else {
 					keepAliveTicker.Reset(nextPingIn)
 				}
 				// Don't break the pingLoop when keepAlive is over, it exists for this case
-			case err = <-pingErr:
+			case err = <-pingResult:
+				pinging = false
 				break pingLoop
 			case <-timeoutTicker.C:
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
-- 
2.43.0


From a06656d621925e595bcd47b6b955f0685e617099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 33/80] fix: do not buffer a handshake without limit

---
 jsonhubprotocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonhubprotocol.go b/jsonhubprotocol.go
index e6b37bf..2904cca 100644
--- a/jsonhubprotocol.go
+++ b/jsonhubprotocol.go
@@ -205,6 +205,9 @@ func parseJSONFrames(buf *bytes.Buffer) ([][]byte, error) {
 	return frames, nil
 }
 
+// maximumHandshakeSize is the maximum number of bytes of a handshake
+const maximumHandshakeSize = 1 << 15
+
 // readHandshake reads the handshake frame from the reader. The messages after the handshake might already have been
 // received together with it. They are in general not JSON, so they are returned as they are.
 func readHandshake(reader io.Reader) (handshake []byte, received []byte, err error) {
@@ -216,6 +219,9 @@ func readHandshake(reader io.Reader) (handshake []byte, received []byte, err err
 		if i := bytes.IndexByte(buf, 0x1e); i >= 0 {
 			return buf[:i], buf[i+1:], nil
 		}
+		if len(buf) > maximumHandshakeSize {
+			return nil, nil, fmt.Errorf("handshake exceeds %d bytes", maximumHandshakeSize)
+		}
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 68df366502e37d5afd4690305a2634f92a1fba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:20 +0000
Subject: [PATCH 34/80] fix: do not take the time a message is handled for a
 timeout of the other side

---
 loop.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/loop.go b/loop.go
index 5d9cbec..e35264c 100644
--- a/loop.go
+++ b/loop.go
@@ -76,6 +76,7 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	lastReceived := time.Now()
 	pingResult := make(chan error, 1)
 	pinging := false
 msgLoop:
@@ -85,6 +86,7 @@ msgLoop:
 			select {
 			case evt := <-ch:
 				err = evt.err
+				lastReceived = time.Now()
 				timeoutTicker.Reset(l.party.timeout())
 				if err == nil {
 					switch message := evt.message.(type) {
@@ -132,6 +134,11 @@ msgLoop:
 				pinging = false
 				break pingLoop
 			case <-timeoutTicker.C:
+				// Handling a message can take longer than the timeout. Then the tick is too old to mean anything,
+				// or the messages which were received in the meantime are still waiting.
+				if len(ch) > 0 || time.Since(lastReceived) < l.party.timeout() {
+					continue
+				}
 				err = fmt.Errorf("timeout interval elapsed (%v)", l.party.timeout())
 				break pingLoop
 			case <-l.hubConn.Context().Done():
-- 
2.43.0


From 2513b06aa31421a2d16d821a46ce47cd5e7212ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 35/80] fix: do not postpone the first timeout of a connection

---
 loop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index e35264c..640fa19 100644
--- a/loop.go
+++ b/loop.go
@@ -74,9 +74,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 			}
 		}
 	}()
+	lastReceived := time.Now()
 	timeoutTicker := time.NewTicker(l.party.timeout())
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
-	lastReceived := time.Now()
 	pingResult := make(chan error, 1)
 	pinging := false
 msgLoop:
-- 
2.43.0


From cc0519550d477003f184376339392e2f785c9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 36/80] fix: do not crash when the handshake times out while
 its request is being written

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9661c0a..bb20419 100644
--- a/client.go
+++ b/client.go
@@ -670,9 +670,10 @@ func (c *client) sendHandshakeRequest() error {
 	request := fmt.Sprintf("{\"protocol\":\"%v\",\"version\":1}\u001e", c.format)
 	ctx, cancelWrite := context.WithTimeout(c.Context(), c.HandshakeTimeout())
 	defer cancelWrite()
+	conn := c.conn
 	_, err := ReadWriteWithContext(ctx,
 		func() (int, error) {
-			return c.conn.Write([]byte(request))
+			return conn.Write([]byte(request))
 		}, func() {})
 	if err != nil {
 		_ = info.Log(evt, "handshake sent", "msg", request, "error", err)
-- 
2.43.0


From 33d32985b7d14654ae639ab95d6990154dce2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 37/80] fix: end the goroutine that waits for the receiver of a
 stream item with the connection

---
 loop.go         |  4 +++-
 streamclient.go | 12 +++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 640fa19..2219095 100644
--- a/loop.go
+++ b/loop.go
@@ -32,13 +32,15 @@ func newLoop(p Party, conn Connection, protocol hubProtocol, received []byte) *l
 	protocol.setMaxReceiveMessageSize(p.maximumReceiveMessageSize())
 	pInfo, pDbg := p.prefixLoggers(conn.ConnectionID())
 	hubConn := newStartedHubConnection(conn, protocol, p.maximumReceiveMessageSize(), pInfo, received)
+	streamClient := newStreamClient(protocol, p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams())
+	streamClient.ended = []<-chan struct{}{hubConn.Context().Done(), p.Context().Done()}
 	return &loop{
 		party:        p,
 		protocol:     protocol,
 		hubConn:      hubConn,
 		invokeClient: newInvokeClient(protocol),
 		streamer:     &streamer{conn: hubConn, maxCancels: p.maxConcurrentStreams()},
-		streamClient: newStreamClient(protocol, p.chanReceiveTimeout(), p.streamBufferCapacity(), p.maxConcurrentStreams()),
+		streamClient: streamClient,
 		info:         pInfo,
 		dbg:          pDbg,
 	}
diff --git a/streamclient.go b/streamclient.go
index fadb710..4b6fec7 100644
--- a/streamclient.go
+++ b/streamclient.go
@@ -1,6 +1,7 @@
 package signalr
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"sync"
@@ -27,6 +28,8 @@ type streamClient struct {
 	streamBufferCapacity uint
 	maxConcurrentStreams uint
 	protocol             hubProtocol
+	// ended are the channels that are closed when nobody waits for the stream items anymore
+	ended []<-chan struct{}
 }
 
 func (c *streamClient) buildChannelArgument(invocation invocationMessage, argType reflect.Type, chanCount int) (arg reflect.Value, canClientStreaming bool, err error) {
@@ -98,7 +101,14 @@ func (c *streamClient) sendChanValSave(upChan reflect.Value, chanVal reflect.Val
 				done <- fmt.Errorf("%v", r)
 			}
 		}()
-		upChan.Send(chanVal)
+		cases := []reflect.SelectCase{{Dir: reflect.SelectSend, Chan: upChan, Send: chanVal}}
+		for _, ended := range c.ended {
+			cases = append(cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ended)})
+		}
+		if chosen, _, _ := reflect.Select(cases); chosen > 0 {
+			done <- errors.New("connection ended while waiting for the receiver of a stream item")
+			return
+		}
 		done <- nil
 	}()
 	select {
-- 
2.43.0


From dfddc0efd87889266a874ba515f6134aa94f8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 38/80] fix: do not block the loop while reporting the timeout
 of a stream receiver

---
 loop.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loop.go b/loop.go
index 2219095..a6f978f 100644
--- a/loop.go
+++ b/loop.go
@@ -304,7 +304,8 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 	if err := l.streamClient.receiveStreamItem(streamItemMessage); err != nil {
 		switch t := err.(type) {
 		case *hubChanTimeoutError:
-			_ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error())
+			// Sending might block when the other side does not read. The loop should not wait for this.
+			go func() { _ = l.hubConn.Completion(streamItemMessage.InvocationID, nil, t.Error()) }()
 		default:
 			_ = l.info.Log(evt, msgRecv, "error", err, msg, fmtMsg(streamItemMessage), react, "close connection")
 			return err
-- 
2.43.0


From 0d8e6b0606df18ef09f5d4edcfb0ebdd49440423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 39/80] fix: end the goroutines of streams with their
 connection

---
 streamer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/streamer.go b/streamer.go
index b2e8181..ecc4c91 100644
--- a/streamer.go
+++ b/streamer.go
@@ -29,10 +29,18 @@ func (s *streamer) Done(invocationID string) {
 
 func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 	go func() {
+		cases := []reflect.SelectCase{
+			{Dir: reflect.SelectRecv, Chan: reflectedChannel},
+			{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.conn.Context().Done())},
+		}
 	loop:
-		for {
-			// Waits for channel, so might hang
-			if chanResult, ok := reflectedChannel.Recv(); ok {
+		for s.conn.Context().Err() == nil {
+			// Waits for channel or the end of the connection
+			chosen, chanResult, ok := reflect.Select(cases)
+			if chosen == 1 {
+				break loop
+			}
+			if ok {
 				if _, ok := s.cancels.Load(invocationID); ok {
 					s.Done(invocationID)
 					_ = s.conn.Completion(invocationID, nil, "")
-- 
2.43.0


From 7e1bb2347d682848cd7be0b1bf1ef209810e6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 40/80] fix: do not let the close message of an ended
 connection end a client that was started again

---
 client.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index bb20419..ed33dbd 100644
--- a/client.go
+++ b/client.go
@@ -188,12 +188,12 @@ func (c *client) Start() {
 				}
 			}()
 			// RUN!
-			err := c.run()
+			closeMessage, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd()
+			shouldEnd := c.shouldClientEnd(closeMessage)
 			cancelObserve()
 			if shouldEnd {
 				return
@@ -232,11 +232,12 @@ func (c *client) Stop() {
 	}
 }
 
-func (c *client) run() error {
+// run runs one connection. It returns the close message if the server has sent one on this connection.
+func (c *client) run() (*closeMessage, error) {
 	// negotiate and so on
 	protocol, received, err := c.setupConnectionAndProtocol()
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	loop := newLoop(c, c.conn, protocol, received)
@@ -265,10 +266,10 @@ func (c *client) run() error {
 	c.conn = nil
 	c.mx.Unlock()
 
-	return err
+	return loop.closeMessage, err
 }
 
-func (c *client) shouldClientEnd() bool {
+func (c *client) shouldClientEnd(closeMessage *closeMessage) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
 		c.setErr(c.ctx.Err())
@@ -281,7 +282,7 @@ func (c *client) shouldClientEnd() bool {
 		return true
 	}
 	// Reconnecting not allowed
-	if c.loop != nil && c.loop.closeMessage != nil && !c.loop.closeMessage.AllowReconnect {
+	if closeMessage != nil && !closeMessage.AllowReconnect {
 		c.setState(ClientClosed)
 		return true
 	}
-- 
2.43.0


From 7204477272af5eebeac5234d108d690d81b86c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 41/80] fix: leave ClientConnected when the connection has
 ended, not after the back-off

---
 client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ed33dbd..36f92c2 100644
--- a/client.go
+++ b/client.go
@@ -211,6 +211,8 @@ func (c *client) Start() {
 				c.setErr(errors.New("backoff exceeded"))
 				return
 			}
+			// Not connected anymore, also while waiting
+			c.setState(ClientConnecting)
 			select {
 			case <-time.After(nextBackoff):
 			case <-c.ctx.Done():
@@ -218,7 +220,6 @@ func (c *client) Start() {
 				c.setState(ClientClosed)
 				return
 			}
-			c.setState(ClientConnecting)
 		}
 	}()
 }
-- 
2.43.0


From 112e2f537059f51c4bd6595ba120a98fb4110964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 42/80] fix: stop the tickers of a connection that has ended

---
 loop.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/loop.go b/loop.go
index a6f978f..a1185cc 100644
--- a/loop.go
+++ b/loop.go
@@ -78,7 +78,9 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	}()
 	lastReceived := time.Now()
 	timeoutTicker := time.NewTicker(l.party.timeout())
+	defer timeoutTicker.Stop()
 	keepAliveTicker := time.NewTicker(l.party.keepAliveInterval())
+	defer keepAliveTicker.Stop()
 	pingResult := make(chan error, 1)
 	pinging := false
 msgLoop:
-- 
2.43.0


From 117f929d8fcb8804c3b237461d59a0aa35398baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 43/80] fix: let Stop wait for a client that is just starting

---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 36f92c2..aa4248c 100644
--- a/client.go
+++ b/client.go
@@ -164,11 +164,11 @@ type client struct {
 }
 
 func (c *client) Start() {
+	// Stop has to wait also when it is called by an observer of the following state change
+	c.waitGroup().Add(1)
 	c.setState(ClientConnecting)
 	boff := c.backoffFactory()
 
-	c.waitGroup().Add(1)
-
 	go func() {
 		defer c.waitGroup().Done()
 
-- 
2.43.0


From 6df575657619e7139c51fe548b02aa4543cdd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:56 +0000
Subject: [PATCH 44/80] fix: send a well-formed handshake response for every
 unsupported protocol name

---
 server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index ba3eb3d..3406caa 100644
--- a/server.go
+++ b/server.go
@@ -322,8 +322,11 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				const errorHandshakeResponse = "{\"error\":\"%s\"}\u001e"
-				return fmt.Fprintf(conn, errorHandshakeResponse, err)
+				response, marshalErr := json.Marshal(handshakeResponse{Error: err.Error()})
+				if marshalErr != nil {
+					return 0, marshalErr
+				}
+				return conn.Write(append(response, 0x1e))
 			}, func() {}); respErr != nil {
 			_ = dbg.Log(evt, "handshake sent", "error", respErr)
 			err = respErr
-- 
2.43.0


From 12f7eca2c3cfc8c98e29047c5b285cb120487546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 45/80] fix: do not take a message for a handshake response

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index aa4248c..52f1a4c 100644
--- a/client.go
+++ b/client.go
@@ -711,6 +711,13 @@ func (c *client) receiveHandshakeResponse() (hubProtocol, []byte, error) {
 				_ = info.Log(evt, "handshake received", "error", response.Error)
 				return nil, nil, errors.New(response.Error)
 			}
+			// Anything but an object and everything that has a type, which is what all messages have, is not a response
+			var fields map[string]json.RawMessage
+			err := json.Unmarshal(rawHandshake, &fields)
+			if _, isMessage := fields["type"]; err != nil || fields == nil || isMessage {
+				_ = info.Log(evt, "handshake received", "msg", string(rawHandshake), "error", "no handshake response")
+				return nil, nil, errors.New("expected a handshake response from the server")
+			}
 			_ = dbg.Log(evt, "handshake received", "msg", fmtMsg(response))
 			var protocol hubProtocol
 			switch c.format {
-- 
2.43.0


From 396b156917e9a2eb0dd646b6c0dc2e9891626c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:12 +0000
Subject: [PATCH 46/80] fix: admit one connection only for a negotiated id or
 token

---
 httpmux.go | 58 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 9d21116..985eedb 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -82,7 +82,7 @@ func (h *httpMux) handlePost(writer http.ResponseWriter, request *http.Request)
 				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize()))
 				writer.WriteHeader(conn.consumeRequest(request))
 				return
-			case *negotiateConnection:
+			case *negotiateConnection, *claimedConnection:
 				// connection start initiated but not completed
 			default:
 				// ConnectionID already used for WebSocket(?)
@@ -127,19 +127,18 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		writer.WriteHeader(http.StatusBadRequest)
 		return
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionIDorToken]
-	h.mx.RUnlock()
+	flusher, ok := writer.(http.Flusher)
+	if !ok {
+		writer.WriteHeader(http.StatusInternalServerError)
+		return
+	}
+	c, ok := h.claim(connectionIDorToken)
 	if ok {
 		if _, ok := c.(*negotiateConnection); ok {
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			if err != nil {
-				writer.WriteHeader(http.StatusInternalServerError)
-				return
-			}
-			flusher, ok := writer.(http.Flusher)
-			if !ok {
+				h.release(connectionIDorToken)
 				writer.WriteHeader(http.StatusInternalServerError)
 				return
 			}
@@ -154,7 +153,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			writer.(http.Flusher).Flush()
 			go func() {
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
-				_ = h.serveConnection(sseConn)
+				_ = h.serveConnection(connectionIDorToken, sseConn)
 			}()
 			// Loop for write jobs from the sseServerConnection
 			for buf := range jobChan {
@@ -199,14 +198,12 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		}
 		h.mx.Unlock()
 	}
-	h.mx.RLock()
-	c, ok := h.connectionMap[connectionMapKey]
-	h.mx.RUnlock()
+	c, ok := h.claim(connectionMapKey)
 	if ok {
 		if _, ok := c.(*negotiateConnection); ok {
 			// Connection is negotiated but not initiated
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
+			err = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
 			if err != nil {
 				_ = websocketConn.Close(1005, err.Error())
 			}
@@ -299,14 +296,32 @@ func (h *httpMux) negotiate(w http.ResponseWriter, req *http.Request) {
 	}
 }
 
-func (h *httpMux) serveConnection(c Connection) error {
+// claim returns the connection which is stored with the key. When it is a negotiateConnection,
+// no one else will get it anymore: A negotiation is good for one connection only.
+func (h *httpMux) claim(connectionMapKey string) (Connection, bool) {
 	h.mx.Lock()
-	h.connectionMap[c.ConnectionID()] = c
-	h.mx.Unlock()
-	err := h.server.Serve(c)
+	defer h.mx.Unlock()
+	c, ok := h.connectionMap[connectionMapKey]
+	if nc, isNegotiated := c.(*negotiateConnection); isNegotiated {
+		h.connectionMap[connectionMapKey] = &claimedConnection{nc}
+	}
+	return c, ok
+}
+
+func (h *httpMux) release(connectionMapKey string) {
 	h.mx.Lock()
-	delete(h.connectionMap, c.ConnectionID())
+	defer h.mx.Unlock()
+	delete(h.connectionMap, connectionMapKey)
+}
+
+// serveConnection serves the connection which has been claimed with connectionMapKey.
+// This is not always the ConnectionID, with negotiate version 1 it is the connectionToken.
+func (h *httpMux) serveConnection(connectionMapKey string, c Connection) error {
+	h.mx.Lock()
+	h.connectionMap[connectionMapKey] = c
 	h.mx.Unlock()
+	err := h.server.Serve(c)
+	h.release(connectionMapKey)
 	return err
 }
 
@@ -318,6 +333,11 @@ func newConnectionID() string {
 	return base64.URLEncoding.EncodeToString(bytes)
 }
 
+// claimedConnection is a negotiated connection which is going to be served
+type claimedConnection struct {
+	*negotiateConnection
+}
+
 type negotiateConnection struct {
 	ConnectionBase
 	createdAt time.Time
-- 
2.43.0


From aba2b922338f67b1ad30c1388340c88559a5b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 47/80] fix: end the server-sent event response when its
 connection is not served anymore

---
 httpmux.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index 985eedb..59126d3 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -135,7 +135,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 	c, ok := h.claim(connectionIDorToken)
 	if ok {
 		if _, ok := c.(*negotiateConnection); ok {
-			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
+			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
+			defer cancel()
 			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
 			if err != nil {
 				h.release(connectionIDorToken)
@@ -154,6 +155,8 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 			go func() {
 				// We can't WriteHeader 500 if we get an error as we already wrote the header, so ignore it.
 				_ = h.serveConnection(connectionIDorToken, sseConn)
+				// The hub connection has ended, end the response, too
+				cancel()
 			}()
 			// Loop for write jobs from the sseServerConnection
 			for buf := range jobChan {
-- 
2.43.0


From 6bcbaf1405bc9adc7ce298932056e2881a2ce1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 48/80] fix: return the size of what was written and do not
 block after the end of a server-sent event connection

---
 serversseconnection.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 665d696..8d217e9 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -81,19 +81,22 @@ func (s *serverSSEConnection) Write(p []byte) (n int, err error) {
 	for _, line := range strings.Split(strings.TrimRight(string(p), "\n"), "\n") {
 		payload = payload + "data: " + line + "\n"
 	}
-	// prevent race with goroutine closing the jobChan
+	// prevent race with goroutine closing the jobChan and allow only one job at a time,
+	// the result might go to the wrong Write otherwise
 	s.mx.Lock()
-	if s.Context().Err() == nil {
-		s.jobChan <- []byte(payload + "\n")
-	} else {
+	defer s.mx.Unlock()
+	if s.Context().Err() != nil {
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	}
-	s.mx.Unlock()
+	s.jobChan <- []byte(payload + "\n")
 	select {
 	case <-s.Context().Done():
 		return 0, fmt.Errorf("%T: %w", s, s.Context().Err())
 	case r := <-s.jobResultChan:
-		return r.n, r.err
+		if r.err != nil {
+			return 0, fmt.Errorf("%T: %w", s, r.err)
+		}
+		// The caller is not interested in the size of the SSE payload
+		return len(p), nil
 	}
-
 }
-- 
2.43.0


From 19f481b1531044bdc7fe2a68b789226d61b6e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 49/80] fix: answer posts to server-sent event connections when
 the connection ends, and allow further posts after a failed one

---
 serversseconnection.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/serversseconnection.go b/serversseconnection.go
index 8d217e9..e0911ad 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -13,9 +13,10 @@ import (
 type serverSSEConnection struct {
 	ConnectionBase
 	mx            sync.Mutex
+	postMx        sync.Mutex
 	postWriting   bool
-	postWriter    io.Writer
-	postReader    io.Reader
+	postWriter    *io.PipeWriter
+	postReader    *io.PipeReader
 	jobChan       chan []byte
 	jobResultChan chan RWJobResult
 }
@@ -29,6 +30,8 @@ func newServerSSEConnection(ctx context.Context, connectionID string) (*serverSS
 	s.postReader, s.postWriter = io.Pipe()
 	go func() {
 		<-s.Context().Done()
+		// Unblock pending reads and posts
+		_ = s.postReader.CloseWithError(s.Context().Err())
 		s.mx.Lock()
 		close(s.jobChan)
 		s.mx.Unlock()
@@ -40,33 +43,41 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 	if err := s.Context().Err(); err != nil {
 		return http.StatusGone // 410
 	}
-	s.mx.Lock()
+	s.postMx.Lock()
 	if s.postWriting {
-		s.mx.Unlock()
+		s.postMx.Unlock()
 		return http.StatusConflict // 409
 	}
 	s.postWriting = true
-	s.mx.Unlock()
+	s.postMx.Unlock()
 	defer func() {
 		_ = request.Body.Close()
 	}()
+	code := s.consumeBody(request)
+	s.postMx.Lock()
+	s.postWriting = false
+	s.postMx.Unlock()
+	if code == http.StatusOK {
+		<-time.After(50 * time.Millisecond)
+	}
+	return code
+}
+
+func (s *serverSSEConnection) consumeBody(request *http.Request) int {
 	body, err := io.ReadAll(request.Body)
 	if err != nil {
 		return http.StatusBadRequest // 400
 	} else if _, err := s.postWriter.Write(body); err != nil {
-		return http.StatusInternalServerError // 500
+		// The connection has ended
+		return http.StatusGone // 410
 	}
-	s.mx.Lock()
-	s.postWriting = false
-	s.mx.Unlock()
-	<-time.After(50 * time.Millisecond)
 	return http.StatusOK // 200
 }
 
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(s.Context(),
 		func() (int, error) { return s.postReader.Read(p) },
-		func() { _, _ = s.postWriter.Write([]byte("\n")) })
+		func() {})
 	if err != nil {
 		err = fmt.Errorf("%T: %w", s, err)
 	}
-- 
2.43.0


From acdfb697959a9b478a74892d20611e1d67ec4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 50/80] fix: apply the maximum receive message size to
 messages, not to posted batches of messages

---
 httpmux.go             |  1 -
 serversseconnection.go | 15 ++++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 59126d3..6a02000 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -79,7 +79,6 @@ func (h *httpMux) handlePost(writer http.ResponseWriter, request *http.Request)
 			// Connection is initiated
 			switch conn := c.(type) {
 			case *serverSSEConnection:
-				request.Body = http.MaxBytesReader(writer, request.Body, int64(h.server.maximumReceiveMessageSize()))
 				writer.WriteHeader(conn.consumeRequest(request))
 				return
 			case *negotiateConnection, *claimedConnection:
diff --git a/serversseconnection.go b/serversseconnection.go
index e0911ad..2ba22ea 100644
--- a/serversseconnection.go
+++ b/serversseconnection.go
@@ -64,14 +64,19 @@ func (s *serverSSEConnection) consumeRequest(request *http.Request) int {
 }
 
 func (s *serverSSEConnection) consumeBody(request *http.Request) int {
-	body, err := io.ReadAll(request.Body)
-	if err != nil {
-		return http.StatusBadRequest // 400
-	} else if _, err := s.postWriter.Write(body); err != nil {
+	// The body might contain any number of messages. It is not read at once, the hub connection limits the size of the messages
+	n, err := io.Copy(s.postWriter, request.Body)
+	switch {
+	case err == nil:
+		return http.StatusOK // 200
+	case s.Context().Err() != nil:
 		// The connection has ended
 		return http.StatusGone // 410
+	case n > 0:
+		// The rest of a message might be missing
+		_ = s.postWriter.CloseWithError(err)
 	}
-	return http.StatusOK // 200
+	return http.StatusBadRequest // 400
 }
 
 func (s *serverSSEConnection) Read(p []byte) (n int, err error) {
-- 
2.43.0


From acbae0f0bc67aa9de80674275a23f13f8e20c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 51/80] fix: deliver websocket messages completely, independent
 of the size of the read buffer

---
 client.go              |  4 ----
 httpmux.go             |  1 -
 websocketconnection.go | 27 ++++++++++++++++++++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 52f1a4c..89c8544 100644
--- a/client.go
+++ b/client.go
@@ -310,10 +310,6 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
 		c.conn = conn
 		c.mx.Unlock()
 	}
-	// Pass maximum receive message size to a potential websocket connection
-	if wsConn, ok := conn.(*webSocketConnection); ok {
-		wsConn.conn.SetReadLimit(int64(c.maximumReceiveMessageSize()))
-	}
 	protocol, received, err := c.processHandshake()
 	if err != nil {
 		// Don't try to reconnect with a connection with failed handshake
diff --git a/httpmux.go b/httpmux.go
index 6a02000..3009ef6 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -188,7 +188,6 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		// don't need to write an error header here as websocket.Accept has already used http.Error
 		return
 	}
-	websocketConn.SetReadLimit(int64(h.server.maximumReceiveMessageSize()))
 	connectionMapKey := request.URL.Query().Get("id")
 	if connectionMapKey == "" {
 		// Support websocket connection without negotiate
diff --git a/websocketconnection.go b/websocketconnection.go
index e6ec983..7ded0d1 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -1,9 +1,9 @@
 package signalr
 
 import (
-	"bytes"
 	"context"
 	"fmt"
+	"io"
 	"net/http"
 	"net/url"
 	"github.com/coder/websocket"
@@ -21,10 +21,13 @@ func NewWebSocketConnection(ctx context.Context, reqURL *url.URL, connectionID s
 type webSocketConnection struct {
 	ConnectionBase
 	conn         *websocket.Conn
+	reader       io.Reader
 	transferMode TransferMode
 }
 
 func newWebSocketConnection(ctx context.Context, connectionID string, conn *websocket.Conn) *webSocketConnection {
+	// Messages are not read at once and the hub connection limits the size of what they contain.
+	conn.SetReadLimit(-1)
 	w := &webSocketConnection{
 		conn:           conn,
 		ConnectionBase: *NewConnectionBase(ctx, connectionID),
@@ -56,11 +59,25 @@ func (w *webSocketConnection) Write(p []byte) (n int, err error) {
 func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	n, err = ReadWriteWithContext(w.Context(),
 		func() (int, error) {
-			_, data, err := w.conn.Read(w.Context())
-			if err != nil {
-				return 0, err
+			for {
+				if w.reader == nil {
+					_, reader, err := w.conn.Reader(w.Context())
+					if err != nil {
+						return 0, err
+					}
+					w.reader = reader
+				}
+				n, err := w.reader.Read(p)
+				if err == io.EOF {
+					// Continue with the next message
+					w.reader = nil
+					if n == 0 {
+						continue
+					}
+					err = nil
+				}
+				return n, err
 			}
-			return bytes.NewReader(data).Read(p)
 		},
 		func() {})
 	if err != nil {
-- 
2.43.0


From c32e3ac972f75b4e22d36ca45f5a3ddd2d85441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 52/80] fix: read server-sent events independent of how they
 arrive and report the end of the connection

---
 clientsseconnection.go | 43 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 1ca613c..6236024 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -1,21 +1,21 @@
 package signalr
 
 import (
+	"bufio"
 	"bytes"
 	"context"
 	"fmt"
 	"io"
 	"net/http"
 	"net/url"
-	"strings"
 )
 
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
 	reqURL    string
-	sseReader io.Reader
-	sseWriter io.Writer
+	sseReader *io.PipeReader
+	sseWriter *io.PipeWriter
 }
 
 func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
@@ -38,29 +38,30 @@ func newClientSSEConnection(address string, connectionID string, body io.ReadClo
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
 		defer func() { closeResponseBody(body) }()
-		p := make([]byte, 1<<15)
-	loop:
+		reader := bufio.NewReaderSize(body, 1<<15)
+		isData, isPrefix := false, false
 		for {
-			n, err := body.Read(p)
+			// Lines might arrive in parts
+			isContinued := isPrefix
+			var line []byte
+			var err error
+			line, isPrefix, err = reader.ReadLine()
 			if err != nil {
-				break loop
+				// Read would wait forever when it is not told that the connection has ended
+				_ = c.sseWriter.CloseWithError(err)
+				return
 			}
-			lines := strings.Split(string(p[:n]), "\n")
-			for _, line := range lines {
-				line = strings.Trim(line, "\r\t ")
+			if !isContinued {
 				// Ignore everything but data
-				if strings.Index(line, "data:") != 0 {
-					continue
-				}
-				json := strings.Replace(strings.Trim(line, "\r"), "data:", "", 1)
+				line, isData = bytes.CutPrefix(line, []byte("data:"))
 				// Spec says: If it starts with Space, remove it
-				if len(json) > 0 && json[0] == ' ' {
-					json = json[1:]
-				}
-				_, err = c.sseWriter.Write([]byte(json))
-				if err != nil {
-					break loop
-				}
+				line = bytes.TrimPrefix(line, []byte(" "))
+			}
+			if !isData || len(line) == 0 {
+				continue
+			}
+			if _, err = c.sseWriter.Write(line); err != nil {
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 8df2e4963aa15efd60417d5409961daeaeef806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 53/80] fix: send the messages of a server-sent events client
 one after the other

---
 clientsseconnection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 6236024..4aa874d 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -8,11 +8,13 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"sync"
 )
 
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	writeMx   sync.Mutex
 	reqURL    string
 	sseReader *io.PipeReader
 	sseWriter *io.PipeWriter
@@ -73,6 +75,9 @@ func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 }
 
 func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
+	// The server refuses a POST while it is processing another one, and the messages have to stay in order
+	c.writeMx.Lock()
+	defer c.writeMx.Unlock()
 	req, err := http.NewRequest("POST", c.reqURL, bytes.NewReader(p))
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 5974ad6edcc0c7370bd20c9413fa73fafe61a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 54/80] fix: post with the connection token when one was
 negotiated for server-sent events

---
 clientsseconnection.go | 14 +++-----------
 httpconnection.go      |  2 +-
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 4aa874d..61cf7ad 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"net/http"
-	"net/url"
 	"sync"
 )
 
@@ -20,22 +19,15 @@ type clientSSEConnection struct {
 	sseWriter *io.PipeWriter
 }
 
-func newClientSSEConnection(address string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
-	// Setup request
-	reqURL, err := url.Parse(address)
-	if err != nil {
-		return nil, err
-	}
-	q := reqURL.Query()
-	q.Set("id", connectionID)
-	reqURL.RawQuery = q.Encode()
+// newClientSSEConnection creates a connection which reads from body and posts to reqURL. reqURL has to contain the id
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
 		client: client,
-		reqURL: reqURL.String(),
+		reqURL: reqURL,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
diff --git a/httpconnection.go b/httpconnection.go
index 629d8c1..bafd155 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,7 +208,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
-		conn, err = newClientSSEConnection(address, negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2c35367dddc5ffbfd1aa61e3532b094dc4d28c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 55/80] fix: do not take a refused server-sent events request
 for a connection

---
 httpconnection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/httpconnection.go b/httpconnection.go
index bafd155..2738efc 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -208,6 +208,11 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, err
 		}
 
+		if resp.StatusCode != 200 {
+			closeResponseBody(resp.Body)
+			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
+		}
+
 		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f33868f9a336ab648b29c6b29a1afe0f01ba9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 56/80] fix: use the configured headers also for the posts of
 server-sent events clients

---
 clientsseconnection.go | 11 ++++++++---
 httpconnection.go      |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 61cf7ad..2b5178f 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -13,6 +13,7 @@ import (
 type clientSSEConnection struct {
 	ConnectionBase
 	client    Doer
+	headers   func() http.Header
 	writeMx   sync.Mutex
 	reqURL    string
 	sseReader *io.PipeReader
@@ -20,14 +21,15 @@ type clientSSEConnection struct {
 }
 
 // newClientSSEConnection creates a connection which reads from body and posts to reqURL. reqURL has to contain the id
-func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer) (*clientSSEConnection, error) {
+func newClientSSEConnection(reqURL string, connectionID string, body io.ReadCloser, client Doer, headers func() http.Header) (*clientSSEConnection, error) {
 	c := clientSSEConnection{
 		ConnectionBase: ConnectionBase{
 			ctx:          context.Background(),
 			connectionID: connectionID,
 		},
-		client: client,
-		reqURL: reqURL,
+		client:  client,
+		headers: headers,
+		reqURL:  reqURL,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
@@ -74,6 +76,9 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 	if err != nil {
 		return 0, err
 	}
+	if c.headers != nil {
+		req.Header = c.headers()
+	}
 	resp, err := c.client.Do(req)
 	if err != nil {
 		return 0, err
diff --git a/httpconnection.go b/httpconnection.go
index 2738efc..6b63360 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -213,7 +213,7 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
 		}
 
-		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client)
+		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5dfa2224744fa331b2c5139327ee68214075996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 57/80] fix: end the request of a server-sent events client
 together with its connection

---
 client.go              | 18 ++++++++++++------
 clientsseconnection.go |  8 ++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 89c8544..1f2eeec 100644
--- a/client.go
+++ b/client.go
@@ -263,13 +263,21 @@ func (c *client) run() (*closeMessage, error) {
 	}
 
 	// Reset conn to allow reconnecting
-	c.mx.Lock()
-	c.conn = nil
-	c.mx.Unlock()
+	c.resetConn()
 
 	return loop.closeMessage, err
 }
 
+// resetConn forgets the connection. It is not used anymore.
+func (c *client) resetConn() {
+	c.mx.Lock()
+	defer c.mx.Unlock()
+	if sseConn, ok := c.conn.(*clientSSEConnection); ok {
+		sseConn.end()
+	}
+	c.conn = nil
+}
+
 func (c *client) shouldClientEnd(closeMessage *closeMessage) bool {
 	// Canceled?
 	if c.ctx.Err() != nil {
@@ -313,9 +321,7 @@ func (c *client) setupConnectionAndProtocol() (hubProtocol, []byte, error) {
 	protocol, received, err := c.processHandshake()
 	if err != nil {
 		// Don't try to reconnect with a connection with failed handshake
-		c.mx.Lock()
-		c.conn = nil
-		c.mx.Unlock()
+		c.resetConn()
 		return nil, nil, err
 	}
 	return protocol, received, nil
diff --git a/clientsseconnection.go b/clientsseconnection.go
index 2b5178f..7497af6 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -16,6 +16,7 @@ type clientSSEConnection struct {
 	headers   func() http.Header
 	writeMx   sync.Mutex
 	reqURL    string
+	body      io.Closer
 	sseReader *io.PipeReader
 	sseWriter *io.PipeWriter
 }
@@ -30,6 +31,7 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 		client:  client,
 		headers: headers,
 		reqURL:  reqURL,
+		body:    body,
 	}
 	c.sseReader, c.sseWriter = io.Pipe()
 	go func() {
@@ -64,6 +66,12 @@ func newClientSSEConnection(reqURL string, connectionID string, body io.ReadClos
 	return &c, nil
 }
 
+// end ends the request for the events. The goroutine reading them would wait for Read forever.
+func (c *clientSSEConnection) end() {
+	_ = c.sseReader.Close()
+	_ = c.body.Close()
+}
+
 func (c *clientSSEConnection) Read(p []byte) (n int, err error) {
 	return c.sseReader.Read(p)
 }
-- 
2.43.0


From eb626469cb202374ff5077f5ef47780877829dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 58/80] fix: do not leave a goroutine behind when an invocation
 could not be sent

---
 Invokeresult.go | 6 ++++++
 client.go       | 1 +
 loop.go         | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/Invokeresult.go b/Invokeresult.go
index 23b0b4e..ee037c0 100644
--- a/Invokeresult.go
+++ b/Invokeresult.go
@@ -64,3 +64,9 @@ func newInvokeResultChan(ctx context.Context, resultChan <-chan interface{}, err
 	}(ctx, ch, resultChan, errChan)
 	return ch
 }
+
+// drainInvokeResultChan lets the goroutine end which feeds a channel nobody else reads
+func drainInvokeResultChan(ch <-chan InvokeResult) {
+	for range ch {
+	}
+}
diff --git a/client.go b/client.go
index 1f2eeec..ab78488 100644
--- a/client.go
+++ b/client.go
@@ -508,6 +508,7 @@ func (c *client) Invoke(method string, arguments ...interface{}) <-chan InvokeRe
 		irCh := newInvokeResultChan(c.Context(), resultCh, errCh)
 		if err := loop.hubConn.SendInvocation(id, method, arguments); err != nil {
 			loop.invokeClient.deleteInvocation(id)
+			go drainInvokeResultChan(irCh)
 			ch <- InvokeResult{Error: err}
 			close(ch)
 			return
diff --git a/loop.go b/loop.go
index a1185cc..7b229b5 100644
--- a/loop.go
+++ b/loop.go
@@ -175,6 +175,7 @@ func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan In
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
 		// We create a new one to deliver our error
+		go drainInvokeResultChan(ch)
 		ch, _ = createResultChansWithError(l.party.Context(), err)
 		l.streamClient.deleteUpstreamChannel(id)
 		l.invokeClient.deleteInvocation(id)
@@ -200,6 +201,7 @@ func (l *loop) PushStreams(method, id string, arguments ...interface{}) (<-chan
 	// Tell the server we are streaming now
 	if err := l.hubConn.SendInvocationWithStreamIds(id, method, invokeArgs, streamIds); err != nil {
 		l.invokeClient.deleteInvocation(id)
+		go drainInvokeResultChan(irCh)
 		return nil, err
 	}
 	// Start streaming on all channels
-- 
2.43.0


From 6c69b798904e1388a27c251f6b709bc711a3cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 59/80] fix: refuse binary protocols over server-sent events,
 which can not transfer them

---
 server.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 3406caa..5231cf4 100644
--- a/server.go
+++ b/server.go
@@ -305,8 +305,14 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 	info, dbg := s.prefixLoggers(conn.ConnectionID())
 	ctx, cancelWrite := context.WithTimeout(s.Context(), s.HandshakeTimeout())
 	defer cancelWrite()
-	var ok bool
-	if protocol, ok = protocolMap[request.Protocol]; ok {
+	protocol, ok := protocolMap[request.Protocol]
+	if ok && !supportsTransferMode(conn, protocol.transferMode()) {
+		ok = false
+		err = fmt.Errorf("protocol %v not supported, the transport is not able to transfer binary messages", request.Protocol)
+	} else if !ok {
+		err = fmt.Errorf("protocol %v not supported", request.Protocol)
+	}
+	if ok {
 		// Send the handshake response
 		const handshakeResponse = "{}\u001e"
 		if _, err = ReadWriteWithContext(ctx,
@@ -318,7 +324,6 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 			_ = dbg.Log(evt, "handshake sent", "msg", handshakeResponse)
 		}
 	} else {
-		err = fmt.Errorf("protocol %v not supported", request.Protocol)
 		_ = info.Log(evt, "protocol requested", "error", err)
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
@@ -335,6 +340,12 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 	return protocol, err
 }
 
+// supportsTransferMode tells if messages can be sent over the connection. Server-sent events are text.
+func supportsTransferMode(conn Connection, mode TransferMode) bool {
+	_, isSSE := conn.(*serverSSEConnection)
+	return !isSSE || mode == TextTransferMode
+}
+
 var protocolMap = map[string]hubProtocol{
 	"json":        &jsonHubProtocol{},
 	"messagepack": &messagePackHubProtocol{},
-- 
2.43.0


From 6400d5df2e3cb16ef6db6b0613ed1e4a58506e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 60/80] fix: close the websocket of a client together with its
 connection

---
 client.go              | 7 +++++--
 websocketconnection.go | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index ab78488..fb75437 100644
--- a/client.go
+++ b/client.go
@@ -272,8 +272,11 @@ func (c *client) run() (*closeMessage, error) {
 func (c *client) resetConn() {
 	c.mx.Lock()
 	defer c.mx.Unlock()
-	if sseConn, ok := c.conn.(*clientSSEConnection); ok {
-		sseConn.end()
+	switch conn := c.conn.(type) {
+	case *clientSSEConnection:
+		conn.end()
+	case *webSocketConnection:
+		conn.end()
 	}
 	c.conn = nil
 }
diff --git a/websocketconnection.go b/websocketconnection.go
index 7ded0d1..751987f 100644
--- a/websocketconnection.go
+++ b/websocketconnection.go
@@ -87,6 +87,12 @@ func (w *webSocketConnection) Read(p []byte) (n int, err error) {
 	return n, err
 }
 
+// end closes the websocket. It would stay open when the server does not close it.
+func (w *webSocketConnection) end() {
+	// Close waits for the server to close it, too
+	go func() { _ = w.conn.Close(websocket.StatusNormalClosure, "") }()
+}
+
 func (w *webSocketConnection) TransferMode() TransferMode {
 	return w.transferMode
 }
-- 
2.43.0


From 19920b8434dc8d8320849ba23757efc2e6fb1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:06 +0000
Subject: [PATCH 61/80] fix: let the context of NewHTTPConnection cancel the
 request for server-sent events

---
 httpconnection.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index 6b63360..867e783 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -193,8 +193,12 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		conn = newWebSocketConnection(context.Background(), negotiateResponse.ConnectionID, ws)
 
 	case httpConn.hasTransport(TransportServerSentEvents) && negotiateResponse.hasTransport(TransportServerSentEvents):
-		req, err := http.NewRequest("GET", reqURL.String(), nil)
+		// ctx ends the request only until the server has answered
+		reqCtx, cancelReq := context.WithCancel(context.Background())
+		stopCancelReq := context.AfterFunc(ctx, cancelReq)
+		req, err := http.NewRequestWithContext(reqCtx, "GET", reqURL.String(), nil)
 		if err != nil {
+			cancelReq()
 			return nil, err
 		}
 
@@ -205,14 +209,22 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 
 		resp, err := httpConn.client.Do(req)
 		if err != nil {
+			cancelReq()
 			return nil, err
 		}
 
 		if resp.StatusCode != 200 {
 			closeResponseBody(resp.Body)
+			cancelReq()
 			return nil, fmt.Errorf("%v %v -> %v", req.Method, req.URL.String(), resp.Status)
 		}
 
+		if !stopCancelReq() {
+			// The response is of no use, its request is canceled
+			_ = resp.Body.Close()
+			return nil, ctx.Err()
+		}
+
 		conn, err = newClientSSEConnection(reqURL.String(), negotiateResponse.ConnectionID, resp.Body, httpConn.client, httpConn.headers)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a0739e07d92bded318bd0ae30cb4e0381b7253cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 62/80] fix: close the websocket when the hub connection has
 ended

---
 httpmux.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/httpmux.go b/httpmux.go
index 3009ef6..c52d305 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -204,10 +204,9 @@ func (h *httpMux) handleWebsocket(writer http.ResponseWriter, request *http.Requ
 		if _, ok := c.(*negotiateConnection); ok {
 			// Connection is negotiated but not initiated
 			ctx, _ := onecontext.Merge(h.server.Context(), request.Context())
-			err = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
-			if err != nil {
-				_ = websocketConn.Close(1005, err.Error())
-			}
+			_ = h.serveConnection(connectionMapKey, newWebSocketConnection(ctx, c.ConnectionID(), websocketConn))
+			// The hub connection has ended, end the websocket, too. Nobody might read from it anymore and notice
+			_ = websocketConn.Close(websocket.StatusNoStatusRcvd, "")
 		} else {
 			// Already initiated
 			_ = websocketConn.Close(1002, "Bad request")
-- 
2.43.0


From edba1444a04c83fa8a905604390ef868f08e1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 63/80] fix: the handshake error response read a variable which
 is changed after its timeout

---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 5231cf4..9ff1705 100644
--- a/server.go
+++ b/server.go
@@ -325,9 +325,11 @@ func (s *server) sendHandshakeResponse(conn Connection, request handshakeRequest
 		}
 	} else {
 		_ = info.Log(evt, "protocol requested", "error", err)
+		// err changes when the write times out, while the function below might still run
+		errText := err.Error()
 		if _, respErr := ReadWriteWithContext(ctx,
 			func() (int, error) {
-				response, marshalErr := json.Marshal(handshakeResponse{Error: err.Error()})
+				response, marshalErr := json.Marshal(handshakeResponse{Error: errText})
 				if marshalErr != nil {
 					return 0, marshalErr
 				}
-- 
2.43.0


From 665d195fc40e26f3962584ed6d4396561cf88146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 64/80] fix: messages sent over redis did not reach the
 connections of the sending server

---
 ext/redishublifetimemnager.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 2be652b..1e2d949 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -23,10 +23,8 @@ const (
 	// redisConnectionGroupsPrefix = redisChannelPrefix + "connectiongroups:" // Not strictly needed with Redis Sets for membership; local cache is sufficient.
 )
 
-// SECURITY NOTE: This implementation includes protection against infinite loops
-// by tracking the source instance ID and skipping self-messages.
-// Without this protection, Redis Pub/Sub would cause infinite message loops
-// where each instance processes its own published messages.
+// Messages are only published by the Invoke methods. All instances, including the one which published a message,
+// receive it and send it to their local connections. Received messages are never published again.
 
 // redisInvocation represents a message sent over Redis for hub invocations
 type redisInvocation struct {
@@ -35,7 +33,7 @@ type redisInvocation struct {
 	ExcludedIDs    []string      `json:"e,omitempty"` // Optional: Connection IDs to exclude (e.g., for SendAllExcept)
 	GroupName      string        `json:"g,omitempty"` // Used for group messages to identify the target group
 	ConnectionID   string        `json:"c,omitempty"` // Used for client messages to identify the target client
-	SourceInstance string        `json:"s,omitempty"` // Source instance ID to prevent infinite loops
+	SourceInstance string        `json:"s,omitempty"` // Source instance ID, for debugging
 }
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
@@ -132,12 +130,6 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 		return
 	}
 
-	// CRITICAL: Skip messages from this instance to prevent infinite loops
-	if invocation.SourceInstance == r.instanceID {
-		level.Debug(r.logger).Log("event", "skipped_self_message", "sourceInstance", invocation.SourceInstance, "target", invocation.Target)
-		return
-	}
-
 	// Create exclusion map for faster lookup
 	excludedMap := make(map[string]struct{}, len(invocation.ExcludedIDs))
 	for _, id := range invocation.ExcludedIDs {
-- 
2.43.0


From a7fd0e3ad381a4279619c7492bc93f90c812740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 65/80] fix: messages to all and to groups sent over redis
 asked for a completion, the clients answer ended their connection

---
 ext/redishublifetimemnager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 1e2d949..681046e 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -196,7 +196,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 				// Send the invocation asynchronously
 				go func(conn signalr.HubConnection, connID string) {
 					// Timeout removed as per request
-					err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+					err := conn.SendInvocation("", invocation.Target, invocation.Args)
 					if err != nil {
 						level.Error(r.logger).Log("event", "send_invocation_failed", "target", "group", "groupName", groupName, "connectionId", connID, "err", err)
 					} else {
@@ -232,7 +232,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 			go func(conn signalr.HubConnection, connID string) {
 				_, cancel := context.WithTimeout(r.ctx, 5*time.Second)
 				defer cancel()
-				err := conn.SendInvocation(uuid.NewString(), invocation.Target, invocation.Args)
+				err := conn.SendInvocation("", invocation.Target, invocation.Args)
 				if err != nil {
 					level.Error(r.logger).Log("event", "send_invocation_failed", "target", "all", "connectionId", connID, "err", err)
 				} else {
-- 
2.43.0


From 497e7c95304f3787d482a7e8db9ff3ae9a4ce2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 66/80] fix: a server started while redis is not available
 never received or sent any message over redis

---
 ext/redishublifetimemnager.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 681046e..999071b 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -80,20 +80,9 @@ func (r *redisHubLifetimeManager) subscribeLoop() {
 	groupPattern := r.groupChannel("*")
 	r.pubSub = r.redisClient.PSubscribe(r.ctx, allPattern, groupPattern)
 
-	// Wait for confirmation that subscription is created before proceeding.
-	_, err := r.pubSub.Receive(r.ctx)
-	if err != nil {
-		level.Error(r.logger).Log("event", "redis_subscribe_failed", "err", err, "patterns", []string{allPattern, groupPattern})
-		r.cancel() // Signal manager is defunct
-		return
-	}
-
-	err = level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
-	if err != nil {
-		return
-	}
-
+	// Redis might not be available yet, or not for some time. The channel connects and subscribes again until it succeeds.
 	ch := r.pubSub.Channel()
+	_ = level.Info(r.logger).Log("event", "redis_subscribed", "patterns", []string{allPattern, groupPattern})
 
 	for {
 		select {
-- 
2.43.0


From 224af8412bdd1463c99527abc143fcfdd729fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 67/80] fix: joining and leaving groups concurrently crashed
 servers with a redis backplane (concurrent map writes)

---
 ext/redishublifetimemnager.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 999071b..3764769 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -38,8 +38,9 @@ type redisInvocation struct {
 
 // redisHubLifetimeManager manages hub connections using Redis Pub/Sub and Sets
 type redisHubLifetimeManager struct {
-	clients          sync.Map // Map[string]signalr.HubConnection - Local connections on this server instance
-	connectionGroups sync.Map // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	clients          sync.Map   // Map[string]signalr.HubConnection - Local connections on this server instance
+	connectionGroups sync.Map   // Map[string]map[string]struct{} - Local cache: connectionID -> set of groupNames this connection belongs to *locally*
+	groupSetsMx      sync.Mutex // protects the sets in connectionGroups
 	redisClient      *redis.Client
 	pubSub           *redis.PubSub
 	logger           signalr.StructuredLogger
@@ -261,13 +262,19 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 			return // Cannot proceed if cache is corrupt
 		}
 
-		if len(groupSet) > 0 {
+		r.groupSetsMx.Lock()
+		groupNames := make([]string, 0, len(groupSet))
+		for groupName := range groupSet {
+			groupNames = append(groupNames, groupName)
+		}
+		r.groupSetsMx.Unlock()
+		if len(groupNames) > 0 {
 			// Use a pipeline for efficiency if removing from multiple groups
 			pipe := r.redisClient.Pipeline()
 			ctx, cancel := context.WithTimeout(r.ctx, 5*time.Second) // Timeout for Redis operation
 			defer cancel()
 
-			for groupName := range groupSet {
+			for _, groupName := range groupNames {
 				redisKey := r.groupMembershipKey(groupName)
 				pipe.SRem(ctx, redisKey, connectionID)
 				level.Debug(r.logger).Log("event", "queueing_redis_srem", "group", groupName, "connectionId", connectionID)
@@ -278,7 +285,7 @@ func (r *redisHubLifetimeManager) OnDisconnected(conn signalr.HubConnection) {
 				level.Error(r.logger).Log("event", "redis_srem_pipeline_failed", "connectionId", connectionID, "err", err)
 				// Log the error, but the connection is already considered disconnected locally.
 			} else if err == nil {
-				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupSet))
+				level.Debug(r.logger).Log("event", "executed_redis_srem_pipeline", "connectionId", connectionID, "group_count", len(groupNames))
 			}
 		}
 	} else {
@@ -403,8 +410,7 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// We could try loading again or just log a warning.
 		level.Warn(r.logger).Log("event", "group_cache_not_found_on_add", "connectionId", connectionID, "group", groupName)
 		// Initialize it defensively?
-		groupsRaw = make(map[string]struct{})
-		r.connectionGroups.Store(connectionID, groupsRaw)
+		groupsRaw, _ = r.connectionGroups.LoadOrStore(connectionID, make(map[string]struct{}))
 	}
 
 	groupSet, castOK := groupsRaw.(map[string]struct{})
@@ -413,7 +419,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// Don't proceed with Redis if local cache is bad.
 		return
 	}
+	r.groupSetsMx.Lock()
 	groupSet[groupName] = struct{}{} // Add to the local set
+	r.groupSetsMx.Unlock()
 
 	// Add connection ID to the Redis Set for the group
 	redisKey := r.groupMembershipKey(groupName)
@@ -426,7 +434,9 @@ func (r *redisHubLifetimeManager) AddToGroup(groupName string, connectionID stri
 		// For simplicity, we leave it in the local cache. If Redis fails,
 		// the connection might not receive group messages, but disconnect
 		// will still try to clean up the (potentially non-existent) Redis entry.
+		r.groupSetsMx.Lock()
 		delete(groupSet, groupName) // Rollback local add on Redis failure
+		r.groupSetsMx.Unlock()
 	} else {
 		level.Debug(r.logger).Log("event", "added_to_redis_group", "group", groupName, "connectionId", connectionID)
 	}
@@ -441,10 +451,12 @@ func (r *redisHubLifetimeManager) RemoveFromGroup(groupName string, connectionID
 	if groupsRaw, ok := r.connectionGroups.Load(connectionID); ok {
 		groupSet, castOK := groupsRaw.(map[string]struct{})
 		if castOK {
+			r.groupSetsMx.Lock()
 			if _, exists := groupSet[groupName]; exists {
 				delete(groupSet, groupName)
 				removedLocally = true
 			}
+			r.groupSetsMx.Unlock()
 		} else {
 			level.Error(r.logger).Log("event", "invalid_group_cache_type_on_remove", "connectionId", connectionID)
 			// Don't attempt Redis removal if local cache is bad? Or proceed anyway?
-- 
2.43.0


From 12c3413db365e38a8187ea114edfa0a483a09d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:36 +0000
Subject: [PATCH 68/80] fix: large integers in messages sent over redis were
 rounded

---
 ext/redishublifetimemnager.go | 47 ++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 3764769..fe40055 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -3,6 +3,7 @@ package ext
 import (
 	"context"
 	"encoding/json"
+	"strconv"
 	"strings"
 	"sync"
 	"time"
@@ -115,7 +116,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	level.Debug(r.logger).Log("event", "received_redis_message", "channel", msg.Channel, "payload_len", len(msg.Payload))
 
 	var invocation redisInvocation
-	if err := json.Unmarshal([]byte(msg.Payload), &invocation); err != nil {
+	if err := unmarshalInvocation(msg.Payload, &invocation); err != nil {
 		level.Error(r.logger).Log("event", "redis_payload_unmarshal_error", "err", err, "payload", msg.Payload)
 		return
 	}
@@ -239,6 +240,50 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	level.Warn(r.logger).Log("event", "unhandled_redis_message", "channel", msg.Channel, "payload", msg.Payload)
 }
 
+// unmarshalInvocation reads an invocation without rounding large integers in the arguments to float64
+func unmarshalInvocation(payload string, invocation *redisInvocation) error {
+	decoder := json.NewDecoder(strings.NewReader(payload))
+	decoder.UseNumber()
+	if err := decoder.Decode(invocation); err != nil {
+		return err
+	}
+	for i, arg := range invocation.Args {
+		value, err := restoreNumbers(arg)
+		if err != nil {
+			return err
+		}
+		invocation.Args[i] = value
+	}
+	return nil
+}
+
+// restoreNumbers replaces json.Number, which not all hub protocols know, by int64, uint64 or float64
+func restoreNumbers(value interface{}) (_ interface{}, err error) {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i, nil
+		}
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u, nil
+		}
+		return v.Float64()
+	case []interface{}:
+		for i := range v {
+			if v[i], err = restoreNumbers(v[i]); err != nil {
+				return nil, err
+			}
+		}
+	case map[string]interface{}:
+		for key := range v {
+			if v[key], err = restoreNumbers(v[key]); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return value, nil
+}
+
 // --- HubLifetimeManager Interface Implementation ---
 
 func (r *redisHubLifetimeManager) OnConnected(conn signalr.HubConnection) {
-- 
2.43.0


From ca454cfb98c1359c58ce8c25d5923e67712e570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 69/80] fix: messages to the group with the empty name were not
 sent over redis

---
 ext/redishublifetimemnager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index fe40055..773868d 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -159,7 +159,7 @@ func (r *redisHubLifetimeManager) handleRedisMessage(msg *redis.Message) {
 	}
 
 	// 2. Message for a group (sent via InvokeGroup)
-	if invocation.GroupName != "" && strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
+	if strings.HasPrefix(msg.Channel, redisGroupChannelPrefix) {
 		groupName := invocation.GroupName // Group name is in the payload
 		level.Debug(r.logger).Log("event", "processing_group_message", "group", groupName, "method", invocation.Target)
 
-- 
2.43.0


From ecae07efbb7b255824228427d671063f9bab1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 70/80] fix: over redis, messages to a client with an empty
 connection id were sent to all clients

---
 ext/redishublifetimemnager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/redishublifetimemnager.go b/ext/redishublifetimemnager.go
index 773868d..14bcb29 100644
--- a/ext/redishublifetimemnager.go
+++ b/ext/redishublifetimemnager.go
@@ -375,6 +375,12 @@ func (r *redisHubLifetimeManager) InvokeClient(connectionID string, target strin
 	//   // Let's stick to the Redis publish model for simplicity and consistency.
 	// }
 
+	// Without ConnectionID, the message would be for all clients. No client has an empty ConnectionID
+	if connectionID == "" {
+		level.Debug(r.logger).Log("event", "skipped_client_message_without_connection", "method", target)
+		return
+	}
+
 	msg := redisInvocation{Target: target, Args: args, ConnectionID: connectionID, SourceInstance: r.instanceID}
 	payload, err := json.Marshal(msg)
 	if err != nil {
-- 
2.43.0


From 9eee25dd73e57469f0dcfd8e2bfe4fa5de857b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:09 +0000
Subject: [PATCH 71/80] fix: a completion that arrives while PullStream
 registers its stream left the stream open forever

---
 loop.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 7b229b5..48efbbe 100644
--- a/loop.go
+++ b/loop.go
@@ -169,8 +169,9 @@ msgLoop:
 }
 
 func (l *loop) PullStream(method, id string, arguments ...interface{}) <-chan InvokeResult {
-	_, errChan := l.invokeClient.newInvocation(id)
+	// The channel for the items comes first: Without it, an early completion would end the invocation, but not the stream.
 	upChan := l.streamClient.newUpstreamChannel(id)
+	_, errChan := l.invokeClient.newInvocation(id)
 	ch := newInvokeResultChan(l.party.Context(), upChan, errChan)
 	if err := l.hubConn.SendStreamInvocation(id, method, arguments); err != nil {
 		// When we get an error here, the loop is closed and the errChan might be already closed
@@ -321,9 +322,11 @@ func (l *loop) handleStreamItemMessage(streamItemMessage streamItemMessage) erro
 func (l *loop) handleCompletionMessage(message completionMessage) error {
 	_ = l.dbg.Log(evt, msgRecv, msg, fmtMsg(message))
 	var err error
+	// Ask the invokeClient first: PullStream registers the invocation after the stream, so its stream is found below.
+	invoked := l.invokeClient.handlesInvocationID(message.InvocationID)
 	if l.streamClient.handlesInvocationID(message.InvocationID) {
 		err = l.streamClient.receiveCompletionItem(message, l.invokeClient)
-	} else if l.invokeClient.handlesInvocationID(message.InvocationID) {
+	} else if invoked {
 		err = l.invokeClient.receiveCompletionItem(message)
 	} else {
 		err = fmt.Errorf("unknown invocationID %v", message.InvocationID)
-- 
2.43.0


From d7fb0492bddeb8e0340a7a1397b9bda85bff188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:12 +0000
Subject: [PATCH 72/80] fix: HttpConnectionFactory changed the options of its
 caller, so reconnects used other transports than configured

---
 clientoptions.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/clientoptions.go b/clientoptions.go
index 4aed5e5..de1cb8e 100644
--- a/clientoptions.go
+++ b/clientoptions.go
@@ -42,15 +42,16 @@ func WithConnector(connectionFactory func() (Connection, error)) func(Party) err
 // with WebSockets (if it is allowed by the HttpConnection options) and if this fails, falls back to a SSE based connection.
 func HttpConnectionFactory(ctx context.Context, address string, options ...func(*httpConnection) error) (Connection, error) {
 	conn := &httpConnection{}
-	for i, option := range options {
+	// The options are used for each attempt to connect, so they have to stay as they are
+	connOptions := make([]func(*httpConnection) error, 0, len(options)+1)
+	for _, option := range options {
+		if option == nil {
+			continue
+		}
 		if err := option(conn); err != nil {
 			return nil, err
 		}
-		if conn.transports != nil {
-			// Remove the WithTransports option
-			options = append(options[:i], options[i+1:]...)
-			break
-		}
+		connOptions = append(connOptions, option)
 	}
 	// If no WithTransports was given, NewHTTPConnection fallbacks to both
 	if conn.transports == nil {
@@ -60,7 +61,8 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If Websockets are allowed, we try to connect with these
 		if transport == TransportWebSockets {
-			wsOptions := append(options, WithTransports(TransportWebSockets))
+			// The last option wins
+			wsOptions := append(connOptions, WithTransports(TransportWebSockets))
 			conn, err := NewHTTPConnection(ctx, address, wsOptions...)
 			// If this is ok, return the conn
 			if err == nil {
@@ -72,7 +74,7 @@ func HttpConnectionFactory(ctx context.Context, address string, options ...func(
 	for _, transport := range conn.transports {
 		// If SSE is allowed, with fallback to try these
 		if transport == TransportServerSentEvents {
-			sseOptions := append(options, WithTransports(TransportServerSentEvents))
+			sseOptions := append(connOptions, WithTransports(TransportServerSentEvents))
 			return NewHTTPConnection(ctx, address, sseOptions...)
 		}
 	}
-- 
2.43.0


From 91984253c09d6ede468b8a4d18cd032d70f63413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 73/80] fix: NewHTTPConnection wrote into the headers of its
 caller, so they piled up and were shared between connections

---
 httpconnection.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/httpconnection.go b/httpconnection.go
index 867e783..8b20a2b 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -174,10 +174,12 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 			opts.HTTPClient = c
 		}
 
+		// The headers belong to the caller, who might return the same for each request
+		opts.HTTPHeader = http.Header{}
 		if httpConn.headers != nil {
-			opts.HTTPHeader = httpConn.headers()
-		} else {
-			opts.HTTPHeader = http.Header{}
+			if headers := httpConn.headers(); headers != nil {
+				opts.HTTPHeader = headers.Clone()
+			}
 		}
 
 		for _, cookie := range resp.Cookies() {
@@ -203,7 +205,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		if httpConn.headers != nil {
-			req.Header = httpConn.headers()
+			// The headers belong to the caller, who might return the same for each request
+			if headers := httpConn.headers(); headers != nil {
+				req.Header = headers.Clone()
+			}
 		}
 		req.Header.Set("Accept", "text/event-stream")
 
-- 
2.43.0


From 5f62e5ee1ee685789a194a0f6cacfda56626284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:15 +0000
Subject: [PATCH 74/80] fix: the attributes of the cookies of the negotiation
 were sent as cookies

---
 httpconnection.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/httpconnection.go b/httpconnection.go
index 8b20a2b..0b71b00 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -183,7 +183,8 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 		}
 
 		for _, cookie := range resp.Cookies() {
-			opts.HTTPHeader.Add("Cookie", cookie.String())
+			// Only name and value are sent back, not the attributes
+			opts.HTTPHeader.Add("Cookie", (&http.Cookie{Name: cookie.Name, Value: cookie.Value, Quoted: cookie.Quoted}).String())
 		}
 
 		ws, _, err := websocket.Dial(ctx, wsURL.String(), opts)
-- 
2.43.0


From 1e06ce0ee977800f7ca0f08bd931ce2f074d1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 75/80] fix: the cookies of the http client's jar were written
 into the caller's headers, and nil headers crashed

---
 clientsseconnection.go | 5 ++++-
 httpconnection.go      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/clientsseconnection.go b/clientsseconnection.go
index 7497af6..b54eb8c 100644
--- a/clientsseconnection.go
+++ b/clientsseconnection.go
@@ -85,7 +85,10 @@ func (c *clientSSEConnection) Write(p []byte) (n int, err error) {
 		return 0, err
 	}
 	if c.headers != nil {
-		req.Header = c.headers()
+		// The headers belong to the caller, and the http client adds its cookies
+		if headers := c.headers(); headers != nil {
+			req.Header = headers.Clone()
+		}
 	}
 	resp, err := c.client.Do(req)
 	if err != nil {
diff --git a/httpconnection.go b/httpconnection.go
index 0b71b00..866bf6a 100644
--- a/httpconnection.go
+++ b/httpconnection.go
@@ -107,7 +107,10 @@ func NewHTTPConnection(ctx context.Context, address string, options ...func(*htt
 	}
 
 	if httpConn.headers != nil {
-		req.Header = httpConn.headers()
+		// The headers belong to the caller, and the http client adds its cookies
+		if headers := httpConn.headers(); headers != nil {
+			req.Header = headers.Clone()
+		}
 	}
 
 	resp, err := httpConn.client.Do(req)
-- 
2.43.0


From 962a2d51b1c5f66c362626a47bd44a5cf8c6b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 76/80] fix: over server-sent events with negotiate version 1,
 the hub got the secret connection token as connection id

---
 httpmux.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httpmux.go b/httpmux.go
index c52d305..2fe6916 100644
--- a/httpmux.go
+++ b/httpmux.go
@@ -136,7 +136,7 @@ func (h *httpMux) handleServerSentEvent(writer http.ResponseWriter, request *htt
 		if _, ok := c.(*negotiateConnection); ok {
 			ctx, cancel := onecontext.Merge(h.server.Context(), request.Context())
 			defer cancel()
-			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, connectionIDorToken) // version 1 uses the token to initiate the connection, not the ID
+			sseConn, jobChan, jobResultChan, err := newServerSSEConnection(ctx, c.ConnectionID())
 			if err != nil {
 				h.release(connectionIDorToken)
 				writer.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From 56a1c2b1299f47a6c80e3f6eee13af94e4ee8cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:03 +0000
Subject: [PATCH 77/80] fix: a value that can not be encoded ended the
 connection and everything on it, also those of other clients it was sent to

---
 hubconnection.go | 25 ++++++++++++++++++++++---
 loop.go          |  8 +++++---
 streamer.go      | 12 +++++++++++-
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/hubconnection.go b/hubconnection.go
index ecd1042..1d5cc05 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -229,7 +229,13 @@ func (c *defaultHubConnection) Completion(id string, result interface{}, error s
 		Result:       result,
 		Error:        error,
 	}
-	return c.writeMessage(completionMessage)
+	err := c.writeMessage(completionMessage)
+	if err != nil && result != nil && c.ctx.Err() == nil {
+		// The result can not be encoded, but the invocation has to be answered
+		completionMessage.Result, completionMessage.Error = nil, err.Error()
+		return c.writeMessage(completionMessage)
+	}
+	return err
 }
 
 func (c *defaultHubConnection) Ping() error {
@@ -245,6 +251,17 @@ func (c *defaultHubConnection) LastWriteStamp() time.Time {
 	return c.lastWriteStamp
 }
 
+// usedWriter knows if something has been written
+type usedWriter struct {
+	io.Writer
+	used bool
+}
+
+func (w *usedWriter) Write(p []byte) (n int, err error) {
+	w.used = true
+	return w.Writer.Write(p)
+}
+
 func (c *defaultHubConnection) writeMessage(message interface{}) error {
 	c.mx.Lock()
 	c.lastWriteStamp = time.Now()
@@ -254,12 +271,14 @@ func (c *defaultHubConnection) writeMessage(message interface{}) error {
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		}
 		e := make(chan error, 1)
-		go func() { e <- c.protocol.WriteMessage(message, c.connection) }()
+		writer := &usedWriter{Writer: c.connection}
+		go func() { e <- c.protocol.WriteMessage(message, writer) }()
 		select {
 		case <-c.ctx.Done():
 			return fmt.Errorf("hubConnection canceled: %w", c.ctx.Err())
 		case err := <-e:
-			if err != nil {
+			// When the message could not be encoded, nothing of it is written and the connection is still good
+			if err != nil && writer.used {
 				c.Abort()
 			}
 			return err
diff --git a/loop.go b/loop.go
index 48efbbe..38385ae 100644
--- a/loop.go
+++ b/loop.go
@@ -298,7 +298,6 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 				// Stream invocation of method with no stream result.
 				// Return a single StreamItem and an empty Completion
 				l.sendResult(invocation, streamItem, result)
-				_ = l.hubConn.Completion(invocation.InvocationID, nil, "")
 			}
 		}
 	}
@@ -370,8 +369,11 @@ func completion(sl *loop, invocation invocationMessage, value interface{}) {
 }
 
 func streamItem(sl *loop, invocation invocationMessage, value interface{}) {
-
-	_ = sl.hubConn.StreamItem(invocation.InvocationID, value)
+	reason := ""
+	if err := sl.hubConn.StreamItem(invocation.InvocationID, value); err != nil {
+		reason = err.Error()
+	}
+	_ = sl.hubConn.Completion(invocation.InvocationID, nil, reason)
 }
 
 func (l *loop) recoverInvocationPanic(invocation invocationMessage) {
diff --git a/streamer.go b/streamer.go
index ecc4c91..9617836 100644
--- a/streamer.go
+++ b/streamer.go
@@ -49,7 +49,17 @@ func (s *streamer) Start(invocationID string, reflectedChannel reflect.Value) {
 				if s.conn.Context().Err() != nil {
 					break loop
 				}
-				_ = s.conn.StreamItem(invocationID, chanResult.Interface())
+				if err := s.conn.StreamItem(invocationID, chanResult.Interface()); err != nil {
+					if _, running := s.running.Load(invocationID); running {
+						// The item can not be sent, so the stream ends here
+						s.Done(invocationID)
+						_ = s.conn.Completion(invocationID, nil, err.Error())
+					} else {
+						// The only way to tell that an upload has failed is to end the connection
+						s.conn.Abort()
+					}
+					break loop
+				}
 			} else {
 				s.Done(invocationID)
 				if s.conn.Context().Err() == nil {
-- 
2.43.0


From b495cc97a9267ef32628a2ddc2ec7613b05ed3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:19 +0000
Subject: [PATCH 78/80] fix: the back-off was not always reset after a
 connection which was lost at once

---
 client.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index fb75437..eab5b69 100644
--- a/client.go
+++ b/client.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"reflect"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/cenkalti/backoff/v4"
@@ -174,33 +173,18 @@ func (c *client) Start() {
 
 		for {
 			c.setErr(nil)
-			// Listen for state change to ClientConnected and signal backoff Reset then.
-			stateChangeChan := make(chan ClientState, 1)
-			var connected atomic.Value
-			connected.Store(false)
-			cancelObserve := c.ObserveStateChanged(stateChangeChan)
-			go func() {
-				for range stateChangeChan {
-					if c.State() == ClientConnected {
-						connected.Store(true)
-						return
-					}
-				}
-			}()
 			// RUN!
 			closeMessage, err := c.run()
 			if err != nil {
 				_ = c.info.Log("connect", fmt.Sprintf("%v", err))
 				c.setErr(err)
 			}
-			shouldEnd := c.shouldClientEnd(closeMessage)
-			cancelObserve()
-			if shouldEnd {
+			if c.shouldClientEnd(closeMessage) {
 				return
 			}
 
 			// When the client has connected, BackOff should be reset
-			if connected.Load().(bool) {
+			if c.State() == ClientConnected {
 				boff.Reset()
 			}
 			// Reconnect after BackOff
-- 
2.43.0


From 94c5e884aa89430c60bbcea9a9f97760768cbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:42 +0000
Subject: [PATCH 79/80] fix: do not wait for the result channel of an
 invocation when the connection has ended

---
 loop.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/loop.go b/loop.go
index 38385ae..4ef1f98 100644
--- a/loop.go
+++ b/loop.go
@@ -277,8 +277,15 @@ func (l *loop) returnInvocationResult(invocation invocationMessage, result []ref
 			// Simple invocation
 			case 1:
 				go func() {
-					// Recv might block, so run continue in a goroutine
-					if chanResult, ok := result[0].Recv(); ok {
+					// Receiving might block, so run continue in a goroutine. It ends with the connection.
+					chosen, chanResult, ok := reflect.Select([]reflect.SelectCase{
+						{Dir: reflect.SelectRecv, Chan: result[0]},
+						{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(l.hubConn.Context().Done())},
+					})
+					if chosen == 1 {
+						return
+					}
+					if ok {
 						l.sendResult(invocation, completion, []reflect.Value{chanResult})
 					} else {
 
-- 
2.43.0


From faf4c07f52e1dcc68d514c8039767d4375466581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:42 +0000
Subject: [PATCH 80/80] fix: Stop did not wait for the parsing of received
 messages, so the client could log after it was stopped

---
 hubconnection.go | 1 +
 loop.go          | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/hubconnection.go b/hubconnection.go
index 1d5cc05..6683895 100644
--- a/hubconnection.go
+++ b/hubconnection.go
@@ -139,6 +139,7 @@ func (c *defaultHubConnection) Receive() <-chan receiveResult {
 	}(c.ctx, c.connection, writer)
 	// parse
 	go func(ctx context.Context, reader io.Reader, recvChan chan<- receiveResult) {
+		defer close(recvChan)
 		remainBuf := bytes.Buffer{}
 		for ctx.Err() == nil {
 			messages, err := c.protocol.ParseMessages(reader, &remainBuf)
diff --git a/loop.go b/loop.go
index 4ef1f98..9bbd37a 100644
--- a/loop.go
+++ b/loop.go
@@ -59,6 +59,11 @@ func (l *loop) Run(connected chan struct{}) (err error) {
 	go func() {
 		defer wg.Done()
 		recv := l.hubConn.Receive()
+		// Parsing has ended, and nothing is logged anymore, when the channel is closed
+		defer func() {
+			for range recv {
+			}
+		}()
 	loop:
 		for {
 			select {
-- 
2.43.0

