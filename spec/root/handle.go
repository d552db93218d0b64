package webwire

// Contracts of the message handling (C14, C15, C18, C20).

import (
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// specError is a handler's error that is not a request error.
type specError struct{ text string }

func (e specError) Error() string { return e.text }

// specHandlerResult makes the request handler return anything.
func specHandlerResult(e *specEnv) (kind int) {
	kind = vrt.Int("result", 0, 4)
	switch kind {
	case 0:
		e.impl.payload = Payload{Encoding: PayloadEncoding(vrt.Int("encoding", 0, 2)), Data: vrt.Bytes("payload")}
		e.impl.sent = vrt.Snap(e.impl.payload.Data)
	case 1:
		e.impl.err = ErrRequest{Code: vrt.String("code"), Message: vrt.String("message")}
	case 2:
		e.impl.err = &ErrRequest{Code: vrt.String("code"), Message: vrt.String("message")}
	case 3:
		var none *ErrRequest
		e.impl.err = none
	case 4:
		e.impl.err = specError{vrt.String("text")}
	}
	return kind
}

// spCode: the error code can be sent.
func spCode(code string) bool {
	return len(code) >= 1 && len(code) <= 255 && vrt.Forall(0, len(code), func(i int) bool { return code[i] >= 32 && code[i] <= 126 })
}

// specAnswer: frame f is the answer to msg for the handler result.
func specAnswer(e *specEnv, f []byte, msg []byte, kind int) {
	vrt.Assert("C14.reply-carries-identifier", len(f) >= 9 && vrt.BytesEq(f[1:9], msg))
	if len(f) < 9 {
		return
	}
	var re *ErrRequest
	switch kind {
	case 0:
		p := Payload{Encoding: e.impl.payload.Encoding, Data: e.impl.sent}
		if p.Encoding == EncodingUtf16 && len(p.Data)%2 != 0 {
			vrt.Cover("unencodable")
			vrt.Assert("C15.internal-error", len(f) == 9 && f[0] == message.MsgReplyInternalError)
			return
		}
		vrt.Cover("payload")
		t, pad := byte(message.MsgReplyBinary), 0
		if p.Encoding == EncodingUtf8 {
			t = message.MsgReplyUtf8
		} else if p.Encoding == EncodingUtf16 {
			t, pad = message.MsgReplyUtf16, 1
		}
		vrt.Assert("C15.payload-delivered", f[0] == t && len(f) == 9+pad+len(p.Data) && vrt.BytesEq(f[9+pad:], p.Data))
		return
	case 1:
		x := e.impl.err.(ErrRequest)
		re = &x
	case 2:
		re = e.impl.err.(*ErrRequest)
	}
	if re != nil && spCode(re.Code) {
		vrt.Cover("error")
		n := len(re.Code)
		vrt.Assert("C15.error-delivered", f[0] == message.MsgReplyError && len(f) == 10+n+len(re.Message) && int(f[9]) == n &&
			string(f[10:10+n]) == re.Code && string(f[10+n:]) == re.Message)
		return
	}
	vrt.Cover("internal error")
	vrt.Assert("C15.internal-error", len(f) == 9 && f[0] == message.MsgReplyInternalError)
}

// prove_C14_C15_C18_C20_Request: a request or signal is handled by the user's hook.
func prove_C14_C15_C18_C20_Request() {
	vrt.Expect("payload")
	vrt.Expect("unencodable")
	vrt.Expect("error")
	vrt.Expect("internal error")
	vrt.Expect("later")
	e := specServer(OptionValue(vrt.Int("sessions", int(Disabled), int(Enabled))), 0)
	limit := vrt.Int("limit", -1, 2)
	con, sock := e.connect(limit, false)
	rec := specReceive()
	msg := rec.msg
	vrt.Assume(msg.MsgType == message.MsgRequestBinary || msg.MsgType == message.MsgRequestUtf8 || msg.MsgType == message.MsgRequestUtf16)
	id := vrt.Snap(msg.MsgIdentifierBytes)
	name, req := vrt.Snap(msg.MsgName), vrt.Snap(msg.MsgPayload.Data)
	kind := specHandlerResult(e)
	if kind == 0 && vrt.Bool("echo") {
		// the request is sent back
		e.impl.payload.Data, e.impl.sent = msg.MsgPayload.Data, req
	}
	e.impl.onHandler = func(c Connection) {
		vrt.Assert("C15.handler-gets-message", c == Connection(con) && e.impl.msg == Message(msg) &&
			vrt.BytesEq(msg.MsgIdentifierBytes, id) && vrt.BytesEq(msg.MsgName, name) && vrt.BytesEq(msg.MsgPayload.Data, req))
		vrt.Assert("C16.handler-is-counted", int(con.tasks) == e.busy+1 && int(e.srv.currentOps) == e.busy+1)
		vrt.Assert("C18.handler-holds-slot", limit < 2 || vrt.SemHeld(con.handlerSlots) == e.held+1)
		vrt.Assert("C14.not-answered-before-handler", sock.writers == 0)
	}
	e.srv.handleMessage(con, msg)
	if e.impl.requests == 0 {
		vrt.Cover("later")
		vrt.Assert("C18.sequential-on-connection-goroutine", limit != 0 && limit != 1)
	}
	vrt.RunSpawned()
	rec.done()
	vrt.Assert("C14.handled-once", e.impl.requests == 1 && e.impl.signals == 0)
	vrt.Assert("C14.answered-once", len(sock.frames) == 1 && sock.writers == 1 && !sock.misused)
	if len(sock.frames) == 1 {
		specAnswer(e, sock.frames[0], id, kind)
	}
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
}

// prove_C14_C20_Others: signals, heartbeats and messages of unexpected type, in every state.
func prove_C14_C20_Others() {
	vrt.Expect("signal")
	vrt.Expect("dropped")
	vrt.Expect("unexpected")
	e := specServer(OptionValue(vrt.Int("sessions", int(Disabled), int(Enabled))), 0)
	limit := vrt.Int("limit", -1, 2)
	con, sock := e.connect(limit, false)
	e.others(con)
	rec := specReceive()
	msg := rec.msg
	vrt.Assume(!spRequest(msg.MsgType))
	name, sig := vrt.Snap(msg.MsgName), vrt.Snap(msg.MsgPayload.Data)
	typ := msg.MsgType
	closed, shut := vrt.Bool("closed"), vrt.Bool("shutdown")
	if closed {
		con.Close()
	}
	if shut {
		e.shutdown()
	}
	e.impl.onHandler = func(c Connection) {
		vrt.Assert("C14.handler-gets-message", c == Connection(con) && e.impl.msg == Message(msg) &&
			vrt.BytesEq(msg.MsgName, name) && vrt.BytesEq(msg.MsgPayload.Data, sig))
		vrt.Assert("C16.handler-is-counted", int(con.tasks) == e.busy+1 && int(e.srv.currentOps) == e.busy+1)
		vrt.Assert("C18.handler-holds-slot", limit < 2 || vrt.SemHeld(con.handlerSlots) == e.held+1)
	}
	e.srv.handleMessage(con, msg)
	if spSignal(typ) && !closed && !shut && e.impl.signals == 0 {
		vrt.Assert("C18.sequential-on-connection-goroutine", limit != 0 && limit != 1)
	}
	vrt.RunSpawned()
	rec.done()
	n := 0
	if spSignal(typ) && !closed && !shut {
		n = 1
		vrt.Cover("signal")
	} else if spSignal(typ) {
		vrt.Cover("dropped")
	} else {
		vrt.Cover("unexpected")
	}
	vrt.Assert("C16.signal-handled-unless-shut-down", e.impl.signals == n)
	vrt.Assert("C14.no-request-handled", e.impl.requests == 0)
	vrt.Assert("C14.never-answered", len(sock.frames) == 0 && sock.writers == 0)
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
}

// prove_C15_C16_C17_Refused: requests of any kind to a server that shuts down or on a closed connection.
func prove_C14_C16_C17_Refused() {
	vrt.Expect("closed")
	vrt.Expect("answered")
	e := specServer(OptionValue(vrt.Int("sessions", int(Disabled), int(Enabled))), 0)
	con, sock := e.connect(vrt.Int("limit", -1, 2), false)
	e.others(con)
	rec := specReceive()
	msg := rec.msg
	vrt.Assume(spRequest(msg.MsgType))
	id := vrt.Snap(msg.MsgIdentifierBytes)
	closed, shut := vrt.Bool("closed"), vrt.Bool("shutdown")
	vrt.Assume(closed || shut)
	if closed {
		con.Close()
	}
	if shut {
		e.shutdown()
	}
	e.srv.handleMessage(con, rec.msg)
	vrt.RunSpawned()
	rec.done()
	vrt.Assert("C16.no-handler-started", e.impl.requests == 0 && e.sess.lookups == 0)
	if closed {
		vrt.Cover("closed")
		vrt.Assert("C17.no-handler-on-closed-connection", len(sock.frames) == 0)
		return
	}
	vrt.Cover("answered")
	vrt.Assert("C14.answered-once", len(sock.frames) == 1)
	f := sock.frames[0]
	vrt.Assert("C15.shutdown-reply", len(f) == 9 && f[0] == message.MsgReplyShutdown && vrt.BytesEq(f[1:9], id))
}

// specRec is a message as the read loop hands it over.
type specRec struct {
	msg      *message.Message
	frame    []byte
	released int
}

// specReceive: the parts of the message lie in the buffer it was read into.
func specReceive() *specRec {
	r := &specRec{frame: vrt.Bytes("frame")}
	next := vrt.Bytes("next")
	n := len(r.frame)
	vrt.Assume(n >= 9 && n < 1<<20 && len(next) == n)
	r.msg = message.SpecReceived(r.frame, next, func() { r.released++ })
	r.msg.MsgType = vrt.Byte("type")
	r.msg.MsgIdentifierBytes = r.frame[1:9]
	copy(r.msg.MsgIdentifier[:], r.msg.MsgIdentifierBytes)
	at := vrt.Int("name-end", 9, 1<<20)
	vrt.Assume(at <= n)
	r.msg.MsgName = r.frame[9:at]
	r.msg.MsgPayload.Data = r.frame[at:]
	return r
}

// done: the message was given back to its pool, once, and is not used any more.
func (r *specRec) done() {
	vrt.Assert("C09.released-exactly-once", r.released == 1)
	vrt.Assert("C09.not-used-after-release", message.SpecUntouched(r.msg, r.frame))
}

// specSessionMsg is a request concerning the session of the connection.
func specSessionMsg(typ byte) (*specRec, []byte) {
	r := specReceive()
	vrt.Assume(r.msg.MsgType == typ)
	return r, vrt.Snap(r.msg.MsgIdentifierBytes)
}

// specBare: exactly one frame was delivered, and it answers the request of this identifier. Its
// type is returned, 0 if it has a payload.
func specBare(sock *specSock, id []byte) byte {
	vrt.Assert("C14.answered-once", len(sock.frames) == 1 && !sock.misused)
	f := sock.frames[0]
	vrt.Assert("C14.reply-carries-identifier", len(f) >= 9 && vrt.BytesEq(f[1:9], id))
	if len(f) != 9 {
		return 0
	}
	return f[0]
}

// prove_C14_C15_C18_C20_SessionsDisabled: session requests to a server without sessions.
func prove_C14_C15_C18_C20_SessionsDisabled() {
	e := specServer(Disabled, uint(vrt.Int("maxConns", 0, 1)))
	e.srv.sessionManager, e.srv.sessionKeyGen = nil, nil
	con, sock := e.connect(vrt.Int("limit", -1, 2), false)
	e.others(con)
	typ := byte(message.MsgRequestRestoreSession)
	if vrt.Bool("closing") {
		typ = message.MsgRequestCloseSession
	}
	rec, id := specSessionMsg(typ)
	e.srv.handleMessage(con, rec.msg)
	vrt.RunSpawned()
	rec.done()
	bare := specBare(sock, id)
	vrt.Assert("C15.sessions-disabled-reply", bare == message.MsgReplySessionsDisabled && e.sess.lookups == 0 && !con.HasSession())
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
}

// specOtherSession gives another connection a session of any key.
func specOtherSession(e *specEnv, other *connection) (key string) {
	if !vrt.Bool("other-connection") {
		return ""
	}
	key = vrt.String("other-key")
	vrt.Assume(len(key) > 0)
	e.keys.key = key
	if other.CreateSession(nil) != nil {
		return ""
	}
	return key
}

// prove_C12_C14_C15_C25_CloseRequest: a closing request, in every state of the connection.
func prove_C12_C14_C15_C25_CloseRequest() {
	vrt.Expect("last")
	vrt.Expect("not last")
	vrt.Expect("no session")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(2, false)
	e.others(con)
	other, _ := e.connect(0, false)
	vrt.JSONFails(false)
	had := vrt.Bool("has-session")
	if had {
		con.CreateSession(nil)
		sock.frames, sock.writers = nil, 0
	}
	otherKey := specOtherSession(e, other)
	created := e.sess.created
	rec, id := specSessionMsg(message.MsgRequestCloseSession)
	e.sess.err = vrt.Err("hook")
	e.sess.panics = vrt.Bool("closed-hook-panics")
	e.srv.handleMessage(con, rec.msg)
	vrt.RunSpawned()
	rec.done()
	bare := specBare(sock, id)
	vrt.Assert("C25.no-creation-hook", e.sess.created == created)
	vrt.Assert("C12.session-closed", !con.HasSession() && con.SessionKey() == "")
	vrt.Assert("C15.closing-confirmed", bare == message.MsgReplyBinary)
	vrt.Assert("C12.others-unaffected", other.SessionKey() == otherKey && (otherKey == "" || e.srv.SessionConnectionsNum(otherKey) == 1))
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
	switch {
	case !had:
		vrt.Cover("no session")
		vrt.Assert("C25.nothing-destroyed", e.sess.closed == 0)
	case otherKey == "key":
		vrt.Cover("not last")
		vrt.Assert("C25.nothing-destroyed", e.sess.closed == 0)
	default:
		vrt.Cover("last")
		vrt.Assert("C25.destroyed-once-by-last", e.sess.closed == 1 && e.sess.closedKey == "key")
		vrt.Assert("C12.session-deregistered", e.srv.SessionConnectionsNum("key") == -1)
	}
}

// prove_C14_C15_C20_C26_RestoreRequest: a restoring request, in every state of the connection.
func prove_C14_C15_C20_C26_RestoreRequest() {
	vrt.Expect("not found")
	vrt.Expect("failed")
	vrt.Expect("unencodable")
	vrt.Expect("restored")
	vrt.Expect("active")
	vrt.Expect("limit")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(2, false)
	e.others(con)
	other, _ := e.connect(0, false)
	vrt.JSONFails(false)
	had := vrt.Bool("has-session")
	if had {
		con.CreateSession(nil)
		sock.frames, sock.writers = nil, 0
	}
	otherKey := specOtherSession(e, other)
	before, created := con.SessionKey(), e.sess.created
	rec, id := specSessionMsg(message.MsgRequestRestoreSession)
	key := string(rec.msg.MsgPayload.Data)
	x := vrt.String("x")
	vrt.Assume(vrt.ValidText(key) && vrt.ValidText(x))
	bad := vrt.Bool("json-fails")
	vrt.JSONFails(bad)
	l := &specLookup{creation: specTime("creation"), lookup: specTime("lookup"), info: map[string]interface{}{"x": x}}
	if bad {
		l.info["y"] = make(chan int)
	}
	e.sess.err = vrt.Err("lookup")
	found := vrt.Bool("found")
	if found {
		e.sess.result = l
	}
	parser := vrt.Bool("parser")
	e.srv.sessionInfoParser = nil
	if parser {
		e.srv.sessionInfoParser = func(m map[string]interface{}) SessionInfo {
			s, _ := m["x"].(string)
			return &specInfo{x: s}
		}
	}
	n := e.srv.SessionConnectionsNum(key)
	e.srv.handleMessage(con, rec.msg)
	vrt.RunSpawned()
	rec.done()
	bare := specBare(sock, id)
	vrt.Assert("C25.no-hook", e.sess.created == created && e.sess.closed == 0)
	vrt.Assert("C12.others-unaffected", other.SessionKey() == otherKey)
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
	kept := con.HasSession() == had && con.SessionKey() == before && e.srv.SessionConnectionsNum(key) == n
	limit := n >= 0 && e.srv.sessionRegistry.maxConns > 0 && uint(n) >= e.srv.sessionRegistry.maxConns
	internal := bare == message.MsgReplyInternalError && kept
	switch {
	case limit:
		vrt.Cover("limit")
		vrt.Assert("C13.limit-answered", bare == message.MsgReplyMaxSessConnsReached && kept)
	case e.sess.lookups > 0 && e.sess.err != nil:
		vrt.Cover("failed")
		vrt.Assert("C26.failed-lookup-answered", internal)
	case e.sess.lookups > 0 && !found:
		vrt.Cover("not found")
		vrt.Assert("C15.session-not-found-reply", bare == message.MsgReplySessionNotFound && kept)
	case e.sess.lookups > 0 && bad:
		vrt.Cover("unencodable")
		vrt.Assert("C15.internal-error", internal)
	case had:
		vrt.Cover("active")
		vrt.Assert("C12.active-session-kept", internal)
	default:
		vrt.Cover("restored")
		f := sock.frames[0]
		vrt.Assert("C26.restored", f[0] == message.MsgReplyUtf8 && specSessionOf(f[9:], key, l.creation, l.lookup))
		if n < 0 {
			n = 0
		}
		vrt.Assert("C12.session-registered", con.SessionKey() == key && e.srv.SessionConnectionsNum(key) == n+1)
		s := con.Session()
		vrt.Assert("C26.session-as-stored", s != nil && s.Key == key && s.Creation.Equal(l.creation) && s.LastLookup.Equal(l.lookup))
		vrt.Assert("C26.info-as-parsed", !parser || con.SessionInfo("x") == interface{}(x))
	}
}
