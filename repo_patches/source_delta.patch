From d14c7477f95a296030257fb96029b15debeb0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 01/27] fix: accept UTF-16 signals that consist of a name only

The composer emits them and the binary and UTF-8 variants are accepted.
---
 message/parseSignalUtf16.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/message/parseSignalUtf16.go b/message/parseSignalUtf16.go
index 1998db8..2cee539 100644
--- a/message/parseSignalUtf16.go
+++ b/message/parseSignalUtf16.go
@@ -25,9 +25,14 @@ func (msg *Message) parseSignalUtf16() error {
 	// Read name length
 	nameLen := int(dat[1])
 
-	// Determine minimum required message length
-	minMsgSize := MinLenSignalUtf16 + nameLen
+	// Determine minimum required message length.
+	// There's at least a 2 byte header and a 2 byte payload expected
+	minMsgSize := MinLenSignalUtf16
 	payloadOffset := 2 + nameLen
+	if nameLen > 0 {
+		// ...unless a name is given, in which case the payload isn't required
+		minMsgSize = 2 + nameLen
+	}
 
 	// Check whether a name padding byte is to be expected
 	if nameLen%2 != 0 {
@@ -40,8 +45,7 @@ func (msg *Message) parseSignalUtf16() error {
 	// name length doesn't correspond to the actual name length
 	if msg.MsgBuffer.len < minMsgSize {
 		return fmt.Errorf(
-			"invalid signal message, too short for full name (%d) "+
-				"and the minimum payload (2)",
+			"invalid signal message, too short for full name (%d)",
 			nameLen,
 		)
 	}
-- 
2.43.0


From 4c1951a4817b51e184b18e1101ae968f28f1089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 02/27] fix: discard the earlier contents when a message is
 read again

Reading into a message that was not closed exposed the name, payload and
identifier of the earlier message.
---
 message/message.go | 12 ++++++++++++
 message/read.go    |  5 ++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/message/message.go b/message/message.go
index 5d04156..8c8069e 100644
--- a/message/message.go
+++ b/message/message.go
@@ -295,6 +295,18 @@ func (msg *Message) PayloadUtf8() ([]byte, error) {
 	return msg.MsgPayload.Utf8()
 }
 
+// reset discards the contents of an earlier message
+// without handing the message back to its pool
+func (msg *Message) reset() {
+	msg.MsgBuffer.Close()
+	msg.MsgType = 0
+	msg.MsgIdentifier = [8]byte{}
+	msg.MsgIdentifierBytes = msg.MsgIdentifier[:]
+	msg.MsgName = nil
+	msg.MsgPayload = pld.Payload{}
+	msg.ServerConfiguration = ServerConfiguration{}
+}
+
 // Close implements the Message interface
 func (msg *Message) Close() {
 	if msg.MsgBuffer.IsEmpty() {
diff --git a/message/read.go b/message/read.go
index 6c18197..b9c4f39 100644
--- a/message/read.go
+++ b/message/read.go
@@ -7,15 +7,13 @@ import (
 
 // ReadBytes reads and parses the message from the given byte slice
 func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
+	msg.reset()
 	if len(bytes) < 1 {
 		return false, nil
 	}
 	if len(bytes) > len(msg.MsgBuffer.buf) {
 		return false, errors.New("message buffer overflow")
 	}
-	if !msg.MsgBuffer.IsEmpty() {
-		msg.MsgBuffer.Close()
-	}
 	copy(msg.MsgBuffer.buf[:len(bytes)], bytes)
 	msg.MsgBuffer.len = len(bytes)
 	return msg.parse()
@@ -23,6 +21,7 @@ func (msg *Message) ReadBytes(bytes []byte) (typeParsed bool, err error) {
 
 // Read reads and parses the message from the given reader
 func (msg *Message) Read(reader io.Reader) (typeParsed bool, err error) {
+	msg.reset()
 	if err := msg.MsgBuffer.Read(reader); err != nil {
 		return false, err
 	}
-- 
2.43.0


From d93c0ce3196f99e18c18c9984e2d4c7db56ec0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 03/27] fix: refuse empty and overlong error codes in unchecked
 mode too

WriteMsgReplyError wrote an unparseable frame for an empty code and
panicked for a code longer than 256 bytes.
---
 message/writeMsgErrorReply.go | 41 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/message/writeMsgErrorReply.go b/message/writeMsgErrorReply.go
index e225f13..744f4e0 100644
--- a/message/writeMsgErrorReply.go
+++ b/message/writeMsgErrorReply.go
@@ -14,27 +14,28 @@ func WriteMsgReplyError(
 	message []byte,
 	safeMode bool,
 ) error {
-	if safeMode {
-		// Validate input
-		if len(code) < 1 {
-			initialErr := fmt.Errorf(
-				"missing error code while creating a new error reply message",
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
-		} else if len(code) > 255 {
-			initialErr := fmt.Errorf(
-				"invalid error code while creating a new error reply message,"+
-					"too long (%d)",
-				len(code),
-			)
-			if err := writer.Close(); err != nil {
-				return fmt.Errorf("%s: %s", initialErr, err)
-			}
-			return initialErr
+	// Validate the error code length
+	if len(code) < 1 {
+		initialErr := fmt.Errorf(
+			"missing error code while creating a new error reply message",
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
+		}
+		return initialErr
+	} else if len(code) > 255 {
+		initialErr := fmt.Errorf(
+			"invalid error code while creating a new error reply message,"+
+				"too long (%d)",
+			len(code),
+		)
+		if err := writer.Close(); err != nil {
+			return fmt.Errorf("%s: %s", initialErr, err)
 		}
+		return initialErr
+	}
+
+	if safeMode {
 		// Determine total message length
 		// messageSize := 10 + len(code) + len(message)
 		// if len(buf) < messageSize {
-- 
2.43.0


From dba5cbb8da2506cc9931e0a721b52a314cca840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 04/27] fix: message.Buffer.Read corrupted or misreported
 messages that exactly fill the buffer

The end-of-stream probe read into the buffer itself: a reader returning the
next bytes together with io.EOF overwrote the message and was accepted,
an empty read was taken for an overflow and reader errors were replaced.
---
 message/buffer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/message/buffer.go b/message/buffer.go
index f20508f..af646dc 100644
--- a/message/buffer.go
+++ b/message/buffer.go
@@ -32,14 +32,23 @@ func (buf *Buffer) Read(reader io.Reader) error {
 	cursor := 0
 	for {
 		if cursor >= len(buf.buf) {
-			// Expect EOF on full buffer
-			_, err := reader.Read(buf.buf)
-			if err != io.EOF {
+			// Expect EOF on full buffer, probe for it without overwriting the
+			// already received data
+			var probe [1]byte
+			readBytes, err := reader.Read(probe[:])
+			if readBytes > 0 {
 				// Overflow! Discard the message that's bigger than the buffer
 				buf.Close()
 				io.Copy(ioutil.Discard, reader)
 				return errors.New("message buffer overflow")
 			}
+			if err == nil {
+				continue
+			}
+			if err != io.EOF {
+				buf.Close()
+				return err
+			}
 
 			// Successfully read out the reader
 			buf.len = cursor
-- 
2.43.0


From 884c272d744481a494d94d781d4dd06e2b1c459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 05/27] fix: closing a message that doesn't belong to a pool
 panicked

---
 message/message.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/message/message.go b/message/message.go
index 8c8069e..e3ceec4 100644
--- a/message/message.go
+++ b/message/message.go
@@ -321,6 +321,8 @@ func (msg *Message) Close() {
 	msg.MsgPayload = pld.Payload{}
 	msg.ServerConfiguration = ServerConfiguration{}
 
-	// Call closure callback
-	msg.onClose()
+	// Call closure callback, there's none for messages not taken from a pool
+	if msg.onClose != nil {
+		msg.onClose()
+	}
 }
-- 
2.43.0


From d4ca5863d629ebf64d019bad227ab20081939e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:28 +0000
Subject: [PATCH 06/27] fix: concurrent resolvers of one request could both
 succeed and block

Fulfill and Fail looked the request up and deregistered it in two separate
critical sections, so two resolvers could take the same request, both report
success and the second one block on the full reply channel.
---
 requestManager/requestManager.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/requestManager/requestManager.go b/requestManager/requestManager.go
index d739adb..1004ac6 100644
--- a/requestManager/requestManager.go
+++ b/requestManager/requestManager.go
@@ -58,20 +58,27 @@ func (manager *RequestManager) deregister(identifier [8]byte) {
 	manager.lock.Unlock()
 }
 
+// take deregisters the request associated with the given identifier and returns
+// it, or nil if there's no such pending request. A request is taken only once,
+// thus only one resolver gets to write to its reply channel
+func (manager *RequestManager) take(identifier [8]byte) *Request {
+	manager.lock.Lock()
+	req := manager.pending[identifier]
+	delete(manager.pending, identifier)
+	manager.lock.Unlock()
+	return req
+}
+
 // Fulfill fulfills the request associated with the given request identifier
 // with the provided reply payload.
 // Returns true if a pending request was fulfilled and deregistered,
 // otherwise returns false
 func (manager *RequestManager) Fulfill(msg *message.Message) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[msg.MsgIdentifier]
-	manager.lock.RUnlock()
-
-	if !exists {
+	req := manager.take(msg.MsgIdentifier)
+	if req == nil {
 		return false
 	}
 
-	manager.deregister(msg.MsgIdentifier)
 	req.Reply <- genericReply{
 		ReplyMsg: msg,
 	}
@@ -85,15 +92,11 @@ func (manager *RequestManager) Fail(
 	identifier [8]byte,
 	err error,
 ) bool {
-	manager.lock.RLock()
-	req, exists := manager.pending[identifier]
-	manager.lock.RUnlock()
-
-	if !exists {
+	req := manager.take(identifier)
+	if req == nil {
 		return false
 	}
 
-	manager.deregister(identifier)
 	req.Reply <- genericReply{
 		Error: err,
 	}
-- 
2.43.0


From 011d20b70c5985c8ebd4f7e550d253849888178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 07/27] fix: deregistering an unregistered connection dropped
 the session of others

---
 sessionRegistry.go | 60 ++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/sessionRegistry.go b/sessionRegistry.go
index 6276b9c..0cfa6b7 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -61,7 +61,7 @@ func (asr *sessionRegistry) register(con *connection) error {
 
 // deregister removes a connection from the list of connections of a session
 // and returns the number of connections left.
-// If there's only one connection left then the entire session will be removed
+// If there's no other connection left then the entire session will be removed
 // from the register and 0 will be returned. If destroy is set to true then the
 // session manager hook OnSessionClosed is executed destroying the session,
 // otherwise the session will be deregistered but left untouched in the storage.
@@ -73,42 +73,44 @@ func (asr *sessionRegistry) deregister(
 	if conn.session == nil {
 		return -1
 	}
+	sessionKey := conn.session.Key
 
 	asr.lock.Lock()
-	if connSet, exists := asr.registry[conn.session.Key]; exists {
-		// If a single connection is left then remove or destroy the session
-		if len(connSet) < 2 {
-			delete(asr.registry, conn.session.Key)
-			asr.lock.Unlock()
+	connSet, exists := asr.registry[sessionKey]
+	if !exists {
+		asr.lock.Unlock()
+		return -1
+	}
+	if _, registered := connSet[conn]; !registered {
+		asr.lock.Unlock()
+		return -1
+	}
 
-			// Destroy the session
-			if destroy {
-				// Recover potential user-space hook panics
-				// to avoid panicking the server
-				defer func() {
-					if recvErr := recover(); recvErr != nil {
-						asr.server.errorLog.Printf(
-							"session closure hook panic: %v",
-							recvErr,
-						)
-					}
-				}()
+	// Remove the connection and, if it was the last one, the entire session
+	delete(connSet, conn)
+	connSetLen := len(connSet)
+	if connSetLen < 1 {
+		delete(asr.registry, sessionKey)
+	}
+	asr.lock.Unlock()
 
-				asr.onSessionDestroy(conn.session.Key)
+	// Destroy the session if no connections are left
+	if connSetLen < 1 && destroy {
+		// Recover potential user-space hook panics
+		// to avoid panicking the server
+		defer func() {
+			if recvErr := recover(); recvErr != nil {
+				asr.server.errorLog.Printf(
+					"session closure hook panic: %v",
+					recvErr,
+				)
 			}
+		}()
 
-			return 0
-		}
-
-		// Find and remove the client from the connections list
-		delete(connSet, conn)
-		connSetLen := len(connSet)
-		asr.lock.Unlock()
-		return connSetLen
+		asr.onSessionDestroy(sessionKey)
 	}
 
-	asr.lock.Unlock()
-	return -1
+	return connSetLen
 }
 
 // activeSessionsNum returns the number of currently active sessions
-- 
2.43.0


From a1b828d0e020aef504b7730431eb2ea132de6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 08/27] fix: a panicking session closure hook crashed the
 server

---
 newServer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newServer.go b/newServer.go
index 53018ae..c0c8d68 100644
--- a/newServer.go
+++ b/newServer.go
@@ -81,6 +81,7 @@ func NewServer(
 			}
 		},
 	)
+	srv.sessionRegistry.server = srv
 
 	// Initialize the transport layer
 	if err := transport.Initialize(
-- 
2.43.0


From 46caf1b6778eecd406676191bf15c27627e89e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 09/27] fix: session and registration of a connection could get
 out of step

---
 connection.go           | 40 ++++++++++++++++++++++++++--------------
 handleSessionClosure.go | 14 ++------------
 sessionRegistry.go      | 29 +++++++++++++++++------------
 3 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/connection.go b/connection.go
index f07bd6c..30b859e 100644
--- a/connection.go
+++ b/connection.go
@@ -124,15 +124,33 @@ func (con *connection) setSession(newSess *Session) {
 	con.sessionLock.Unlock()
 }
 
+// resetSession atomically removes the session from this connection and from the
+// active sessions registry and returns true, or returns false if there's no
+// session assigned. If destroy is set to true then the session is destroyed if
+// this was its last connection. The session is destroyed after the lock was
+// released because this involves a user-space hook
+func (con *connection) resetSession(destroy bool) bool {
+	con.sessionLock.Lock()
+	if con.session == nil {
+		con.sessionLock.Unlock()
+		return false
+	}
+	sessionKey := con.session.Key
+	connsLeft := con.srv.sessionRegistry.deregister(con, false)
+	con.session = nil
+	con.sessionLock.Unlock()
+
+	if destroy && connsLeft == 0 {
+		con.srv.sessionRegistry.destroy(sessionKey)
+	}
+	return true
+}
+
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
 	// Deregister session from active sessions registry, but don't destroy it
-	con.srv.sessionRegistry.deregister(con, false)
-
-	con.sessionLock.Lock()
-	con.session = nil
-	con.sessionLock.Unlock()
+	con.resetSession(false)
 
 	// Close connection
 	con.sock.Close()
@@ -280,17 +298,11 @@ func (con *connection) CloseSession() error {
 		return ErrSessionsDisabled{}
 	}
 
-	con.sessionLock.Lock()
-	if con.session == nil {
-		con.sessionLock.Unlock()
-		return nil
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	con.srv.sessionRegistry.deregister(con, true)
-	con.session = nil
-	con.sessionLock.Unlock()
+	if !con.resetSession(true) {
+		return nil
+	}
 
 	return con.notifySessionClosed()
 }
diff --git a/handleSessionClosure.go b/handleSessionClosure.go
index 139cc8a..f7d4500 100644
--- a/handleSessionClosure.go
+++ b/handleSessionClosure.go
@@ -23,21 +23,11 @@ func (srv *server) handleSessionClosure(
 		return
 	}
 
-	if !con.HasSession() {
-		// Send confirmation even though no session was closed
-		srv.fulfillMsg(con, msg, Payload{})
-		finalize()
-		return
-	}
-
 	// Deregister session from active sessions registry destroying it if it's
 	// the last connection left
-	srv.sessionRegistry.deregister(con, true)
-
-	// Reset the session on the connection
-	con.setSession(nil)
+	con.resetSession(true)
 
-	// Send confirmation
+	// Send confirmation even if no session was closed
 	srv.fulfillMsg(con, msg, Payload{})
 	finalize()
 }
diff --git a/sessionRegistry.go b/sessionRegistry.go
index 0cfa6b7..1f04a16 100644
--- a/sessionRegistry.go
+++ b/sessionRegistry.go
@@ -96,23 +96,28 @@ func (asr *sessionRegistry) deregister(
 
 	// Destroy the session if no connections are left
 	if connSetLen < 1 && destroy {
-		// Recover potential user-space hook panics
-		// to avoid panicking the server
-		defer func() {
-			if recvErr := recover(); recvErr != nil {
-				asr.server.errorLog.Printf(
-					"session closure hook panic: %v",
-					recvErr,
-				)
-			}
-		}()
-
-		asr.onSessionDestroy(sessionKey)
+		asr.destroy(sessionKey)
 	}
 
 	return connSetLen
 }
 
+// destroy executes the session manager hook OnSessionClosed
+func (asr *sessionRegistry) destroy(sessionKey string) {
+	// Recover potential user-space hook panics
+	// to avoid panicking the server
+	defer func() {
+		if recvErr := recover(); recvErr != nil {
+			asr.server.errorLog.Printf(
+				"session closure hook panic: %v",
+				recvErr,
+			)
+		}
+	}()
+
+	asr.onSessionDestroy(sessionKey)
+}
+
 // activeSessionsNum returns the number of currently active sessions
 func (asr *sessionRegistry) activeSessionsNum() int {
 	asr.lock.RLock()
-- 
2.43.0


From 03a114cb595f9fc06b9757456f53ca10143611eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:56 +0000
Subject: [PATCH 10/27] fix: restoring a session overrode an active one and
 could crash the server

---
 connection.go           |  7 -------
 handleSessionRestore.go | 27 +++++++++++++++++++++------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/connection.go b/connection.go
index 30b859e..fb84252 100644
--- a/connection.go
+++ b/connection.go
@@ -117,13 +117,6 @@ func (con *connection) deregisterTask() {
 	}
 }
 
-// setSession sets a new session for this client
-func (con *connection) setSession(newSess *Session) {
-	con.sessionLock.Lock()
-	con.session = newSess
-	con.sessionLock.Unlock()
-}
-
 // resetSession atomically removes the session from this connection and from the
 // active sessions registry and returns true, or returns false if there's no
 // session assigned. If destroy is set to true then the session is destroyed if
diff --git a/handleSessionRestore.go b/handleSessionRestore.go
index e3c3726..b7d5ff7 100644
--- a/handleSessionRestore.go
+++ b/handleSessionRestore.go
@@ -2,7 +2,6 @@ package webwire
 
 import (
 	"encoding/json"
-	"fmt"
 
 	"github.com/qbeon/webwire-go/message"
 )
@@ -83,17 +82,33 @@ func (srv *server) handleSessionRestore(
 		parsedSessInfo = srv.sessionInfoParser(sessionInfo)
 	}
 
-	con.setSession(&Session{
+	// Assign and register the session atomically
+	con.sessionLock.Lock()
+	if con.session != nil {
+		// Never override an active session
+		con.sessionLock.Unlock()
+		srv.failMsg(con, msg, nil)
+		finalize()
+		srv.errorLog.Printf(
+			"can't restore a session on a connection with an active session",
+		)
+		return
+	}
+	con.session = &Session{
 		Key:        key,
 		Creation:   sessionCreation,
 		LastLookup: sessionLastLookup,
 		Info:       parsedSessInfo,
-	})
+	}
 	if err := srv.sessionRegistry.register(con); err != nil {
-		panic(fmt.Errorf("the number of concurrent session connections was " +
-			"unexpectedly exceeded",
-		))
+		// The limit was reached while the session was being looked up
+		con.session = nil
+		con.sessionLock.Unlock()
+		srv.failMsg(con, msg, ErrMaxSessConnsReached{})
+		finalize()
+		return
 	}
+	con.sessionLock.Unlock()
 
 	srv.fulfillMsg(
 		con,
-- 
2.43.0


From 5288edf3c7e9a60231be91237e9e941d96d8133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 11/27] fix: creating a session ignored a failed registration

---
 connection.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/connection.go b/connection.go
index fb84252..a7bb0f6 100644
--- a/connection.go
+++ b/connection.go
@@ -208,11 +208,26 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 		}
 	}
 
+	if err := con.assignNewSession(attachment); err != nil {
+		return err
+	}
+
+	// Call session creation hook
+	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
+		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
+	}
+
+	return nil
+}
+
+// assignNewSession creates, registers and announces a new session
+func (con *connection) assignNewSession(attachment SessionInfo) error {
 	con.sessionLock.Lock()
+	// Release the lock even if the session key generator panics
+	defer con.sessionLock.Unlock()
 
 	// Abort if there's already another active session
 	if con.session != nil {
-		con.sessionLock.Unlock()
 		return fmt.Errorf(
 			"Another session (%s) on this client is already active",
 			con.session.Key,
@@ -222,26 +237,23 @@ func (con *connection) CreateSession(attachment SessionInfo) error {
 	// Create a new session
 	newSession := NewSession(attachment, con.srv.sessionKeyGen.Generate)
 
+	// Register the session
+	con.session = &newSession
+	if err := con.srv.sessionRegistry.register(con); err != nil {
+		con.session = nil
+		return fmt.Errorf("Couldn't register the session: %s", err)
+	}
+
 	// Try to notify about session creation
 	if err := con.notifySessionCreated(&newSession); err != nil {
-		con.sessionLock.Unlock()
+		con.srv.sessionRegistry.deregister(con, false)
+		con.session = nil
 		return fmt.Errorf(
 			"Couldn't notify client about the session creation: %s",
 			err,
 		)
 	}
 
-	// Register the session
-	con.session = &newSession
-
-	con.srv.sessionRegistry.register(con)
-	con.sessionLock.Unlock()
-
-	// Call session creation hook
-	if err := con.srv.sessionManager.OnSessionCreated(con); err != nil {
-		con.srv.errorLog.Printf("OnSessionCreated hook failed: %s", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 87c1b434bd37c7f2d0f3b4c380abb565d9a01521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 12/27] fix: handlers started during shutdown, on closed
 connections, and lost handler slots

---
 connection.go        | 18 ++++++++++++++++--
 deregisterHandler.go |  5 +----
 registerHandler.go   | 25 +++++++++++++++----------
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/connection.go b/connection.go
index a7bb0f6..8ac688b 100644
--- a/connection.go
+++ b/connection.go
@@ -92,11 +92,17 @@ func (con *connection) IsActive() bool {
 
 }
 
-// registerTask increments the number of currently executed tasks
-func (con *connection) registerTask() {
+// registerTask increments the number of currently executed tasks and returns
+// true, or returns false if this connection was marked for shutdown
+func (con *connection) registerTask() bool {
 	con.stateLock.Lock()
+	if !con.isActive {
+		con.stateLock.Unlock()
+		return false
+	}
 	con.tasks++
 	con.stateLock.Unlock()
+	return true
 }
 
 // deregisterTask decrements the number of currently executed tasks
@@ -139,6 +145,14 @@ func (con *connection) resetSession(destroy bool) bool {
 	return true
 }
 
+// releaseHandlerSlot releases a handler slot if the number of concurrent
+// handlers is limited
+func (con *connection) releaseHandlerSlot() {
+	if con.options.ConcurrencyLimit > 1 {
+		con.handlerSlots.Release(1)
+	}
+}
+
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
diff --git a/deregisterHandler.go b/deregisterHandler.go
index 63587d6..772dfea 100644
--- a/deregisterHandler.go
+++ b/deregisterHandler.go
@@ -12,8 +12,5 @@ func (srv *server) deregisterHandler(con *connection) {
 
 	con.deregisterTask()
 
-	// Release a handler slot
-	if con.options.ConcurrencyLimit > 1 {
-		con.handlerSlots.Release(1)
-	}
+	con.releaseHandlerSlot()
 }
diff --git a/registerHandler.go b/registerHandler.go
index b52f6aa..08b9777 100644
--- a/registerHandler.go
+++ b/registerHandler.go
@@ -14,8 +14,6 @@ func (srv *server) registerHandler(
 	con *connection,
 	msg *message.Message,
 ) bool {
-	failMsg := false
-
 	if !con.IsActive() {
 		return false
 	}
@@ -25,21 +23,28 @@ func (srv *server) registerHandler(
 		con.handlerSlots.Acquire(context.Background(), 1)
 	}
 
+	// Don't start any handler if the connection was closed in the meantime
+	if !con.registerTask() {
+		con.releaseHandlerSlot()
+		return false
+	}
+
 	srv.opsLock.Lock()
-	if srv.shutdown {
-		// defer failure due to shutdown of either the server or the connection
-		failMsg = true
-	} else {
+	shutdown := srv.shutdown
+	if !shutdown {
 		srv.currentOps++
 	}
 	srv.opsLock.Unlock()
 
-	if failMsg && msg.RequiresReply() {
-		// Don't process the message, fail it
-		srv.failMsgShutdown(con, msg)
+	if shutdown {
+		// Don't process the message, fail it if it awaits a reply
+		if msg.RequiresReply() {
+			srv.failMsgShutdown(con, msg)
+		}
+		con.deregisterTask()
+		con.releaseHandlerSlot()
 		return false
 	}
 
-	con.registerTask()
 	return true
 }
-- 
2.43.0


From 9766b366ac3e691646ebc45298d76c046e8274e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 13/27] fix: shutdown reply on a closed socket crashed the
 server

---
 failMsg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/failMsg.go b/failMsg.go
index 95d6feb..65951ff 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -109,6 +109,7 @@ func (srv *server) failMsgShutdown(con *connection, msg *message.Message) {
 			con,
 			err,
 		)
+		return
 	}
 
 	if err := message.WriteMsgSpecialRequestReply(
-- 
2.43.0


From ed6aeb4a7a88b6e68bbdfbed8340f52818b77cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:43 +0000
Subject: [PATCH 14/27] fix: requests went unanswered if the handler result
 couldn't be encoded

---
 failMsg.go    | 30 ++++++++++++++++++++++++++++++
 fulfillMsg.go | 11 +++++++++++
 2 files changed, 41 insertions(+)

diff --git a/failMsg.go b/failMsg.go
index 65951ff..4f944ba 100644
--- a/failMsg.go
+++ b/failMsg.go
@@ -4,6 +4,19 @@ import (
 	"github.com/qbeon/webwire-go/message"
 )
 
+// validErrorCode returns true if the given request error code can be encoded
+func validErrorCode(code string) bool {
+	if len(code) < 1 || len(code) > 255 {
+		return false
+	}
+	for i := 0; i < len(code); i++ {
+		if code[i] < 32 || code[i] > 126 {
+			return false
+		}
+	}
+	return true
+}
+
 // failMsg fails the message returning an error reply
 func (srv *server) failMsg(
 	con *connection,
@@ -16,6 +29,23 @@ func (srv *server) failMsg(
 		return
 	}
 
+	// Request errors that can't be encoded are answered with an internal error
+	switch err := reqErr.(type) {
+	case ErrRequest:
+		if !validErrorCode(err.Code) {
+			srv.errorLog.Printf("invalid request error code: %q", err.Code)
+			reqErr = nil
+		}
+	case *ErrRequest:
+		if err == nil {
+			srv.errorLog.Print("missing request error")
+			reqErr = nil
+		} else if !validErrorCode(err.Code) {
+			srv.errorLog.Printf("invalid request error code: %q", err.Code)
+			reqErr = nil
+		}
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
diff --git a/fulfillMsg.go b/fulfillMsg.go
index f4cad1f..1fafb60 100644
--- a/fulfillMsg.go
+++ b/fulfillMsg.go
@@ -8,6 +8,17 @@ func (srv *server) fulfillMsg(
 	msg *message.Message,
 	replyPayload Payload,
 ) {
+	// Payloads that can't be encoded are answered with an internal error
+	if replyPayload.Encoding == EncodingUtf16 &&
+		len(replyPayload.Data)%2 != 0 {
+		srv.errorLog.Printf(
+			"invalid UTF16 reply payload data length: %d",
+			len(replyPayload.Data),
+		)
+		srv.failMsg(con, msg, nil)
+		return
+	}
+
 	writer, err := con.sock.GetWriter()
 	if err != nil {
 		srv.errorLog.Printf(
-- 
2.43.0


From ae9241586163491e21d87b741a35e3b465efa4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:01 +0000
Subject: [PATCH 15/27] fix: signals larger than 4 GiB passed the message
 buffer size check

---
 connection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index 8ac688b..7e7bd02 100644
--- a/connection.go
+++ b/connection.go
@@ -189,8 +189,8 @@ func (con *connection) Signal(name []byte, payload Payload) (err error) {
 	}
 
 	// Ensure the message won't exceed the buffer size
-	if uint32(message.CalcMsgLenSignal(name, payload.Encoding, payload.Data)) >
-		con.srv.options.MessageBufferSize {
+	if uint64(message.CalcMsgLenSignal(name, payload.Encoding, payload.Data)) >
+		uint64(con.srv.options.MessageBufferSize) {
 		return ErrBufferOverflow{}
 	}
 
-- 
2.43.0


From a8acebd5bc7020119d24baba2e0e8d11ebdf0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 16/27] fix: a session created while its connection was closing
 stayed registered

---
 connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 7e7bd02..7b27b51 100644
--- a/connection.go
+++ b/connection.go
@@ -156,11 +156,11 @@ func (con *connection) releaseHandlerSlot() {
 // unlink resets the connection and marks it as disconnected
 // preparing it for garbage collection
 func (con *connection) unlink() {
+	// Close connection first, no session can be created on it from now on
+	con.sock.Close()
+
 	// Deregister session from active sessions registry, but don't destroy it
 	con.resetSession(false)
-
-	// Close connection
-	con.sock.Close()
 }
 
 // Info implements the Connection interface
-- 
2.43.0


From 6bc08b5af22019bbbcb8e37b623ae787d222e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 17/27] fix: decode surrogate pairs when converting UTF16
 payloads to UTF8

---
 payload/payload.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/payload/payload.go b/payload/payload.go
index 1c7292e..05b37d7 100644
--- a/payload/payload.go
+++ b/payload/payload.go
@@ -27,6 +27,15 @@ func (pld *Payload) Utf8() ([]byte, error) {
 		for i := 0; i < len(pld.Data); i += 2 {
 			u16str[0] = uint16(pld.Data[i]) + (uint16(pld.Data[i+1]) << 8)
 			rn := utf16.Decode(u16str)
+			if i+3 < len(pld.Data) {
+				// Combine surrogate pairs into a single code point
+				next := uint16(pld.Data[i+2]) + (uint16(pld.Data[i+3]) << 8)
+				pair := utf16.DecodeRune(rune(u16str[0]), rune(next))
+				if pair != utf8.RuneError {
+					rn[0] = pair
+					i += 2
+				}
+			}
 			rnSize := utf8.EncodeRune(utf8buf, rn[0])
 			utf8str.Write(utf8buf[:rnSize])
 		}
-- 
2.43.0


From bf4feca534a0ec8d4f25e384577805b9f3979dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 18/27] fix: session keys could name files outside the session
 directory

---
 defaultSessionManager.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 05921ab..9010f35 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 )
 
@@ -90,21 +91,38 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	}
 }
 
-// filePath generates an absolute session file path given the session key
-func (mng *DefaultSessionManager) filePath(sessionKey string) string {
-	return filepath.Join(mng.path, sessionKey+".wwrsess")
+// maxFileNameLen is the longest file name common file systems support
+const maxFileNameLen = 255
+
+// filePath generates the session file path given the session key.
+// Returns false if the given key can't name a file
+// in the session directory, session keys are sent by the clients
+// and could otherwise refer to files outside the session directory
+func (mng *DefaultSessionManager) filePath(sessionKey string) (string, bool) {
+	name := sessionKey + ".wwrsess"
+	if len(name) > maxFileNameLen ||
+		filepath.Base(name) != name ||
+		strings.IndexByte(name, 0) >= 0 {
+		return "", false
+	}
+	return filepath.Join(mng.path, name), true
 }
 
 // OnSessionCreated implements the session manager interface.
 // It writes the created session into a file using the session key as file name
 func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
+	path, valid := mng.filePath(conn.SessionKey())
+	if !valid {
+		return fmt.Errorf("Session key can't be used as session file name")
+	}
+
 	sess := conn.Session()
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
 		LastLookup: sess.LastLookup,
 		Info:       SessionInfoToVarMap(sess.Info),
 	}
-	return sessFile.Save(mng.filePath(conn.SessionKey()))
+	return sessFile.Save(path)
 }
 
 // OnSessionLookup implements the session manager interface.
@@ -114,7 +132,10 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 	SessionLookupResult,
 	error,
 ) {
-	path := mng.filePath(key)
+	path, valid := mng.filePath(key)
+	if !valid {
+		return nil, nil
+	}
 
 	// Lookup session file
 	_, err := os.Stat(path)
@@ -142,7 +163,7 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 		LastLookup: time.Now().UTC(),
 		Info:       file.Info,
 	}
-	if err := newSessionFile.Save(mng.filePath(key)); err != nil {
+	if err := newSessionFile.Save(path); err != nil {
 		return nil, fmt.Errorf(
 			"Couldn't update last lookup field, failed writing file: %s",
 			err,
@@ -159,7 +180,12 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 // OnSessionClosed implements the session manager interface.
 // It closes the session by deleting the according session file
 func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
-	if err := os.Remove(mng.filePath(sessionKey)); err != nil {
+	path, valid := mng.filePath(sessionKey)
+	if !valid {
+		return fmt.Errorf("Session key can't be used as session file name")
+	}
+
+	if err := os.Remove(path); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
 			err,
-- 
2.43.0


From 784715f1dbb71c6f75c5d5b502c596b78a5cd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 19/27] fix: the session directory was created without
 permission to use it

---
 defaultSessionManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 9010f35..88b5929 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -70,7 +70,7 @@ func NewDefaultSessionManager(sessFilesPath string) *DefaultSessionManager {
 	_, err := os.Stat(sessFilesPath)
 	if os.IsNotExist(err) {
 		// Create the directory if it doesn't exist yet
-		if err := os.MkdirAll(sessFilesPath, 0640); err != nil {
+		if err := os.MkdirAll(sessFilesPath, 0750); err != nil {
 			panic(fmt.Errorf(
 				"Couldn't create default session directory ('%s'): %s",
 				sessFilesPath,
-- 
2.43.0


From 29545861be424d319cb02cf60ca96e184bfdc9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 20/27] fix: an interrupted write left a corrupt session file

---
 defaultSessionManager.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 88b5929..23828f8 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -29,15 +29,25 @@ func (sessf *sessionFile) Parse(filePath string) error {
 	return json.Unmarshal(contents, sessf)
 }
 
-// Save writes the session file to a file on the filesystem
+// tempFileName is the name of the file sessions are written to
+// before they replace the actual session file.
+// It never equals the name of a session file
+const tempFileName = "wwrsess.tmp"
+
+// Save writes the session file to a file on the filesystem.
+// An existing file is replaced at once so that it's never left incomplete
 func (sessf *sessionFile) Save(filePath string) error {
 	encoded, err := json.Marshal(sessf)
 	if err != nil {
 		return fmt.Errorf("Couldn't marshal session file: %s", err)
 	}
-	if err := ioutil.WriteFile(filePath, encoded, 0640); err != nil {
+	tempPath := filepath.Join(filepath.Dir(filePath), tempFileName)
+	if err := ioutil.WriteFile(tempPath, encoded, 0640); err != nil {
 		return fmt.Errorf("Couldn't write session file: %s", err)
 	}
+	if err := os.Rename(tempPath, filePath); err != nil {
+		return fmt.Errorf("Couldn't replace session file: %s", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From b14775dabcbadd1e2ee446678ba313429f4adaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 21/27] fix: a lookup restored the file of a session closed
 meanwhile

---
 defaultSessionManager.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/defaultSessionManager.go b/defaultSessionManager.go
index 23828f8..11dbfb7 100644
--- a/defaultSessionManager.go
+++ b/defaultSessionManager.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"time"
 )
 
@@ -55,6 +56,9 @@ func (sessf *sessionFile) Save(filePath string) error {
 // It uses files as a persistent storage
 type DefaultSessionManager struct {
 	path string
+
+	// lock serializes the access to the session files
+	lock sync.Mutex
 }
 
 // NewDefaultSessionManager constructs a new default session manager instance.
@@ -126,6 +130,9 @@ func (mng *DefaultSessionManager) OnSessionCreated(conn Connection) error {
 		return fmt.Errorf("Session key can't be used as session file name")
 	}
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	sess := conn.Session()
 	sessFile := sessionFile{
 		Creation:   sess.Creation,
@@ -147,6 +154,9 @@ func (mng *DefaultSessionManager) OnSessionLookup(key string) (
 		return nil, nil
 	}
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	// Lookup session file
 	_, err := os.Stat(path)
 	if os.IsNotExist(err) {
@@ -195,6 +205,9 @@ func (mng *DefaultSessionManager) OnSessionClosed(sessionKey string) error {
 		return fmt.Errorf("Session key can't be used as session file name")
 	}
 
+	mng.lock.Lock()
+	defer mng.lock.Unlock()
+
 	if err := os.Remove(path); err != nil {
 		return fmt.Errorf(
 			"Unexpected error during session destruction: %s",
-- 
2.43.0


From c6a34c11f584c28eacfd442cc0a97ae016d4aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 22/27] fix: memchan buffer always ends the message on close

Closing an empty writer (any composer that refuses its arguments does that)
returned without unlocking the buffer and the writer: the connection could
never be written to again. After an overflow the parts written later were
delivered as if they were the message; now such a message isn't delivered.
---
 transport/memchan/buffer.go | 23 ++++++++++++++++-------
 transport/memchan/socket.go |  6 ++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index bb34082..c3bb2c6 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -11,6 +11,8 @@ import (
 type Buffer struct {
 	buf     []byte
 	len     int
+	// overflown is set when the current message didn't fit the buffer
+	overflown bool
 	onFlush func([]byte) error
 	lock    *sync.Mutex
 }
@@ -34,14 +36,16 @@ func NewBuffer(
 // reset clears the buffer
 func (buf *Buffer) reset() {
 	buf.len = 0
+	buf.overflown = false
 }
 
 // Write writes a portion of data to the buffer
 func (buf *Buffer) Write(p []byte) (int, error) {
 	buf.lock.Lock()
-	if len(p) > len(buf.buf)-buf.len {
-		// Buffer overflow
-		buf.reset()
+	if buf.overflown || len(p) > len(buf.buf)-buf.len {
+		// Buffer overflow, the message can't be delivered completely anymore
+		buf.len = 0
+		buf.overflown = true
 		buf.lock.Unlock()
 		return 0, wwr.ErrBufferOverflow{}
 	}
@@ -51,14 +55,19 @@ func (buf *Buffer) Write(p []byte) (int, error) {
 	return len(p), nil
 }
 
-// Close flushes the buffer to the reader
+// Close flushes the buffer to the reader. The flush callback is also called
+// when there's nothing to deliver, with no data, because it ends the message
 func (buf *Buffer) Close() (err error) {
 	buf.lock.Lock()
+	defer buf.lock.Unlock()
+	defer buf.reset()
+
+	err = buf.onFlush(buf.buf[:buf.len])
+	if buf.overflown {
+		return wwr.ErrBufferOverflow{}
+	}
 	if buf.len < 1 {
 		return errors.New("no data written")
 	}
-	err = buf.onFlush(buf.buf[:buf.len])
-	buf.reset()
-	buf.lock.Unlock()
 	return err
 }
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 1004bce..57a7d21 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -69,6 +69,12 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	if len(data) < 1 {
+		// Nothing to deliver, only release the writer
+		sock.writerLock.Unlock()
+		return nil
+	}
+
 	if !sock.IsConnected() {
 		sock.writerLock.Unlock()
 		return errors.New("can't write to a closed socket")
-- 
2.43.0


From 9c9db984f12566491992fac409c390970601eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 23/27] fix: memchan socket isn't connected after a rejected
 Dial

The server refused the connection but both sockets stayed connected: writing
blocked forever and dialing again failed with "socket already connected".
---
 transport/memchan/socket.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 57a7d21..6ee27c1 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -120,7 +120,12 @@ func (sock *Socket) Dial(deadline time.Time) error {
 	sock.remote.resetReader()
 
 	// Execute server callback
-	return sock.server.onConnect(sock, connOpts)
+	if err := sock.server.onConnect(sock, connOpts); err != nil {
+		// The connection wasn't accepted
+		sock.Close()
+		return err
+	}
+	return nil
 }
 
 // GetWriter implements the transport.Socket interface
-- 
2.43.0


From 980bf4fdc1c3500e40b00858003e533f513a64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 24/27] fix: closing a memchan socket frees its writers and
 readers

Closing a socket closed the reader channels, which made a writer about to hand
over its message panic, and notified the waiting writer and reader only if they
were already waiting at that moment: a writer that had just handed over its
message waited forever for the confirmation holding the writer lock, and a
reader confirming a message of a writer that was already gone never returned.
The buffered channel also released frames nobody read. Now the message is handed
over to a reader directly or the writer notices the closure, the confirmation
always follows a handover, and each connection has its own closure notifier.
The expired read timer isn't left to the next deadline.
---
 transport/memchan/buffer.go          |   8 +-
 transport/memchan/entangleSockets.go |  12 +--
 transport/memchan/link.go            |  44 ++++++++
 transport/memchan/newSocket.go       |  12 +--
 transport/memchan/socket.go          | 154 +++++++++------------------
 transport/memchan/transport.go       |   2 +-
 6 files changed, 111 insertions(+), 121 deletions(-)
 create mode 100644 transport/memchan/link.go

diff --git a/transport/memchan/buffer.go b/transport/memchan/buffer.go
index c3bb2c6..321570a 100644
--- a/transport/memchan/buffer.go
+++ b/transport/memchan/buffer.go
@@ -9,12 +9,12 @@ import (
 
 // Buffer represents a reactive outbound buffer implementation
 type Buffer struct {
-	buf     []byte
-	len     int
+	buf []byte
+	len int
 	// overflown is set when the current message didn't fit the buffer
 	overflown bool
-	onFlush func([]byte) error
-	lock    *sync.Mutex
+	onFlush   func([]byte) error
+	lock      *sync.Mutex
 }
 
 // NewBuffer allocates a new buffer
diff --git a/transport/memchan/entangleSockets.go b/transport/memchan/entangleSockets.go
index ba618c8..6d98850 100644
--- a/transport/memchan/entangleSockets.go
+++ b/transport/memchan/entangleSockets.go
@@ -2,10 +2,10 @@ package memchan
 
 // entangleSockets connects two sockets
 func entangleSockets(server, client *Socket) {
-	if server.status != nil {
+	if server.link != nil {
 		panic("the server socket is already entangled")
 	}
-	if client.status != nil {
+	if client.link != nil {
 		panic("the server socket is already entangled")
 	}
 
@@ -17,8 +17,8 @@ func entangleSockets(server, client *Socket) {
 	server.remote = client
 	client.remote = server
 
-	// Initialize shared status
-	status := statusDisconnected
-	server.status = &status
-	client.status = &status
+	// Initialize the shared link
+	link := &link{}
+	server.link = link
+	client.link = link
 }
diff --git a/transport/memchan/link.go b/transport/memchan/link.go
new file mode 100644
index 0000000..719cefa
--- /dev/null
+++ b/transport/memchan/link.go
@@ -0,0 +1,44 @@
+package memchan
+
+import "sync"
+
+// link represents the connection between two entangled sockets
+type link struct {
+	lock      sync.Mutex
+	connected bool
+
+	// closed is closed when the current connection is closed
+	closed chan struct{}
+}
+
+// open connects the sockets, returns false if they're already connected
+func (lnk *link) open() bool {
+	lnk.lock.Lock()
+	defer lnk.lock.Unlock()
+	if lnk.connected {
+		return false
+	}
+	lnk.connected = true
+	lnk.closed = make(chan struct{})
+	return true
+}
+
+// close disconnects the sockets, returns false if they aren't connected
+func (lnk *link) close() bool {
+	lnk.lock.Lock()
+	defer lnk.lock.Unlock()
+	if !lnk.connected {
+		return false
+	}
+	lnk.connected = false
+	close(lnk.closed)
+	return true
+}
+
+// connection returns the closure notifier of the current connection and whether
+// the sockets are connected
+func (lnk *link) connection() (<-chan struct{}, bool) {
+	lnk.lock.Lock()
+	defer lnk.lock.Unlock()
+	return lnk.closed, lnk.connected
+}
diff --git a/transport/memchan/newSocket.go b/transport/memchan/newSocket.go
index cbd7afa..17d29d9 100644
--- a/transport/memchan/newSocket.go
+++ b/transport/memchan/newSocket.go
@@ -17,12 +17,11 @@ func newSocket(server *Transport, bufferSize uint32) *Socket {
 		server:     server,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
+		reader:     make(chan []byte),
 		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     nil,
+		link:       nil,
 	}
 
 	// Allocate the outbound buffer
@@ -41,18 +40,15 @@ func newDisconnectedSocket() *Socket {
 	readTimer := time.NewTimer(0)
 	<-readTimer.C
 
-	status := statusDisconnected
-
 	socket := &Socket{
 		sockType:   SocketClient,
 		readLock:   &sync.Mutex{},
 		writerLock: &sync.Mutex{},
-		reader:     make(chan []byte, 1),
-		readerLock: &sync.Mutex{},
+		reader:     make(chan []byte),
 		readerErr:  make(chan error),
 		readTimer:  readTimer,
 		remote:     nil,
-		status:     &status,
+		link:       &link{},
 	}
 
 	// Allocate the outbound buffer
diff --git a/transport/memchan/socket.go b/transport/memchan/socket.go
index 6ee27c1..1c33b9f 100644
--- a/transport/memchan/socket.go
+++ b/transport/memchan/socket.go
@@ -6,16 +6,12 @@ import (
 	"io"
 	"net"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	wwr "github.com/qbeon/webwire-go"
 	"github.com/qbeon/webwire-go/message"
 )
 
-const statusConnected uint32 = 1
-const statusDisconnected uint32 = 2
-
 // SocketType represents the type of a socket
 type SocketType uint
 
@@ -40,8 +36,8 @@ type Socket struct {
 	// remote references the remote socket
 	remote *Socket
 
-	// status represents the connection status
-	status *uint32
+	// link represents the connection to the remote socket
+	link *link
 
 	// readTimer enables reader timeout. It's started when the reader is applied
 	// a deadline and cleared when it finished reading
@@ -57,11 +53,12 @@ type Socket struct {
 	// onFlush callback must be connected to the sockets
 	outboundBuffer Buffer
 
-	// reader is the data receiving channel to the reader goroutine. It must be
-	// triggered as soon as any data is received
-	reader     chan []byte
-	readerErr  chan error
-	readerLock *sync.Mutex
+	// reader hands the remote writer's buffer over to the reader goroutine
+	reader chan []byte
+
+	// readerErr releases the remote writer, the reader goroutine must write it
+	// exactly once for each buffer it received
+	readerErr chan error
 }
 
 // onBufferFlush is a slot method that's called by the outbound buffer's onFlush
@@ -69,25 +66,27 @@ type Socket struct {
 // reading and waits until it's finished reading eventually releasing the local
 // writer buffer
 func (sock *Socket) onBufferFlush(data []byte) (err error) {
+	defer sock.writerLock.Unlock()
+
 	if len(data) < 1 {
 		// Nothing to deliver, only release the writer
-		sock.writerLock.Unlock()
 		return nil
 	}
 
-	if !sock.IsConnected() {
-		sock.writerLock.Unlock()
+	closed, connected := sock.link.connection()
+	if !connected {
 		return errors.New("can't write to a closed socket")
 	}
 
-	// Notify the remote reader about the new message
-	sock.remote.writeReader(data)
+	// Hand the message over to the remote reader
+	select {
+	case sock.remote.reader <- data:
+	case <-closed:
+		return errors.New("socket closed")
+	}
 
 	// Wait for the remote reader to finish reading
-	err = <-sock.remote.readerErr
-
-	sock.writerLock.Unlock()
-	return
+	return <-sock.remote.readerErr
 }
 
 // Dial implements the transport.Socket interface
@@ -108,17 +107,10 @@ func (sock *Socket) Dial(deadline time.Time) error {
 		return errors.New("connection refused")
 	}
 
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusDisconnected,
-		statusConnected,
-	) {
+	if !sock.link.open() {
 		return errors.New("socket already connected")
 	}
 
-	sock.resetReader()
-	sock.remote.resetReader()
-
 	// Execute server callback
 	if err := sock.server.onConnect(sock, connOpts); err != nil {
 		// The connection wasn't accepted
@@ -145,49 +137,24 @@ func (sock *Socket) GetWriter() (io.WriteCloser, error) {
 	return &sock.outboundBuffer, nil
 }
 
-func (sock *Socket) getReader() chan []byte {
-	sock.readerLock.Lock()
-	reader := sock.reader
-	sock.readerLock.Unlock()
-	return reader
-}
-
-func (sock *Socket) writeReader(data []byte) {
-	sock.readerLock.Lock()
-	sock.reader <- data
-	sock.readerLock.Unlock()
-}
-
-// closeReader closes the current reader
-func (sock *Socket) closeReader() {
-	sock.readerLock.Lock()
-	close(sock.reader)
-	sock.readerLock.Unlock()
-}
-
-// resetReader resets the socket reader
-func (sock *Socket) resetReader() {
-	sock.readerLock.Lock()
-	sock.reader = make(chan []byte, 1)
-	sock.readerLock.Unlock()
-}
-
-func (sock *Socket) readWithoutDeadline() (
+func (sock *Socket) readWithoutDeadline(closed <-chan struct{}) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
 	// Await either a message or remote/local socket closure
-	data = <-sock.getReader()
+	select {
+	case data = <-sock.reader:
+		return data, nil
 
-	if data == nil {
-		// Socket closed
+	case <-closed:
 		return nil, ErrSockRead{closed: true}
 	}
-
-	return data, nil
 }
 
-func (sock *Socket) readWithDeadline(deadline time.Time) (
+func (sock *Socket) readWithDeadline(
+	closed <-chan struct{},
+	deadline time.Time,
+) (
 	data []byte,
 	err wwr.ErrSockRead,
 ) {
@@ -197,20 +164,23 @@ func (sock *Socket) readWithDeadline(deadline time.Time) (
 	select {
 	case <-sock.readTimer.C:
 		// Deadline exceeded
-		err = ErrSockRead{err: errors.New("read deadline exceeded")}
-
-	case result := <-sock.getReader():
-		if result == nil {
-			// Socket closed
-			err = ErrSockRead{closed: true}
-		} else {
-			data = result
-		}
+		return nil, ErrSockRead{err: errors.New("read deadline exceeded")}
+
+	case data = <-sock.reader:
+
+	case <-closed:
+		err = ErrSockRead{closed: true}
 	}
 
-	sock.readTimer.Stop()
+	// Don't leave an expired timer to the next deadline
+	if !sock.readTimer.Stop() {
+		select {
+		case <-sock.readTimer.C:
+		default:
+		}
+	}
 
-	return
+	return data, err
 }
 
 // Read implements the transport.Socket interface
@@ -222,7 +192,8 @@ func (sock *Socket) Read(
 	sock.readLock.Lock()
 
 	// Check connection status
-	if !sock.IsConnected() {
+	closed, connected := sock.link.connection()
+	if !connected {
 		sock.readLock.Unlock()
 		return ErrSockRead{closed: true}
 	}
@@ -230,10 +201,10 @@ func (sock *Socket) Read(
 	var data []byte
 	if deadline.IsZero() {
 		// No deadline
-		data, err = sock.readWithoutDeadline()
+		data, err = sock.readWithoutDeadline(closed)
 	} else {
 		// Set deadline
-		data, err = sock.readWithDeadline(deadline)
+		data, err = sock.readWithDeadline(closed, deadline)
 	}
 
 	if err != nil {
@@ -243,7 +214,7 @@ func (sock *Socket) Read(
 	}
 
 	// Try to read the socket into the message buffer and release the remote
-	// writer by sending nil to the sock.reader channel
+	// writer by sending nil to the sock.readerErr channel
 	typeParsed, parseErr := msg.ReadBytes(data)
 	if parseErr != nil {
 		sock.readerErr <- nil
@@ -263,7 +234,8 @@ func (sock *Socket) Read(
 
 // IsConnected implements the transport.Socket interface
 func (sock *Socket) IsConnected() bool {
-	return atomic.LoadUint32(sock.status) == statusConnected
+	_, connected := sock.link.connection()
+	return connected
 }
 
 // RemoteAddr implements the transport.Socket interface
@@ -277,33 +249,11 @@ func (sock *Socket) RemoteAddr() net.Addr {
 
 // Close implements the transport.Socket interface
 func (sock *Socket) Close() error {
-	if !atomic.CompareAndSwapUint32(
-		sock.status,
-		statusConnected,
-		statusDisconnected,
-	) {
+	// Disconnect both sockets, fails their active readers and writers
+	if !sock.link.close() {
 		return nil
 	}
 
-	// Close remote reader and writer
-	sock.remote.closeReader()
-
-	// Fail any currently active writer
-	select {
-	case sock.remote.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Send reader confirmation if any remote writer is currently awaiting
-	// the local reader to finish
-	select {
-	case sock.readerErr <- errors.New("socket closed"):
-	default:
-	}
-
-	// Close the local reader
-	sock.closeReader()
-
 	// Execute server callback
 	if sock.sockType == SocketClient {
 		sock.server.onDisconnect(sock.remote)
diff --git a/transport/memchan/transport.go b/transport/memchan/transport.go
index fd84727..3514d66 100644
--- a/transport/memchan/transport.go
+++ b/transport/memchan/transport.go
@@ -109,7 +109,7 @@ func (srv *Transport) onConnect(
 		return errors.New("server is closed")
 	}
 
-	if clientSocket.remote == nil || clientSocket.status == nil {
+	if clientSocket.remote == nil || clientSocket.link == nil {
 		return errors.New("uninitialized socket")
 	}
 
-- 
2.43.0


From 9f5ee8911e16d32f2315056e2700b532da9d4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 25/27] fix: copying a session info with a nil map key panicked

---
 genericSessionInfo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index d2206e2..f5828c3 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -61,8 +61,9 @@ func copyRecursive(original, cpy reflect.Value) {
 			originalValue := original.MapIndex(key)
 			copyValue := reflect.New(originalValue.Type()).Elem()
 			copyRecursive(originalValue, copyValue)
-			copyKey := deepCopy(key.Interface())
-			cpy.SetMapIndex(reflect.ValueOf(copyKey), copyValue)
+			copyKey := reflect.New(key.Type()).Elem()
+			copyRecursive(key, copyKey)
+			cpy.SetMapIndex(copyKey, copyValue)
 		}
 
 	default:
-- 
2.43.0


From 95ea322abb87de0e7c8e9985b24de6c8967f1090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 26/27] fix: session info copies shared the maps and slices
 inside arrays and structs

---
 genericSessionInfo.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/genericSessionInfo.go b/genericSessionInfo.go
index f5828c3..2f47f36 100644
--- a/genericSessionInfo.go
+++ b/genericSessionInfo.go
@@ -66,6 +66,20 @@ func copyRecursive(original, cpy reflect.Value) {
 			cpy.SetMapIndex(copyKey, copyValue)
 		}
 
+	case reflect.Array:
+		for i := 0; i < original.Len(); i++ {
+			copyRecursive(original.Index(i), cpy.Index(i))
+		}
+
+	case reflect.Struct:
+		cpy.Set(original)
+		for i := 0; i < original.NumField(); i++ {
+			// Unexported fields can't be copied any deeper
+			if field := cpy.Field(i); field.CanSet() {
+				copyRecursive(original.Field(i), field)
+			}
+		}
+
 	default:
 		cpy.Set(original)
 	}
-- 
2.43.0


From 9870364c444aeb0e39d309080ebf9a9435b7c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 27/27] fix: release the session lock if the session info
 panics

---
 connection.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/connection.go b/connection.go
index 7b27b51..f97733f 100644
--- a/connection.go
+++ b/connection.go
@@ -337,9 +337,9 @@ func (con *connection) HasSession() bool {
 // Session implements the Connection interface
 func (con *connection) Session() *Session {
 	con.sessionLock.RLock()
-	clone := con.session.Clone()
-	con.sessionLock.RUnlock()
-	return clone
+	// Release the lock even if copying the session info panics
+	defer con.sessionLock.RUnlock()
+	return con.session.Clone()
 }
 
 // SessionKey implements the Connection interface
@@ -369,13 +369,12 @@ func (con *connection) SessionCreation() time.Time {
 // SessionInfo implements the Connection interface
 func (con *connection) SessionInfo(name string) interface{} {
 	con.sessionLock.RLock()
+	// Release the lock even if the session info panics
+	defer con.sessionLock.RUnlock()
 	if con.session == nil || con.session.Info == nil {
-		con.sessionLock.RUnlock()
 		return nil
 	}
-	val := con.session.Info.Value(name)
-	con.sessionLock.RUnlock()
-	return val
+	return con.session.Info.Value(name)
 }
 
 // Close implements the Connection interface
-- 
2.43.0

