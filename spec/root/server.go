package webwire

// Contracts of starting a server and of serving one connection (C20, C23, C33), of signals (C06) and
// of closing all connections of a session.

import (
	"time"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// ---- start-up ----

func spConfMs(t time.Duration) int {
	if t < time.Second {
		return 60000
	}
	return int(t / time.Millisecond)
}

func spConfSize(n uint32) int {
	if n == 0 {
		return 8192
	}
	return int(n)
}

func spLE32(n int, i int) byte {
	d := 1
	if i == 1 {
		d = 256
	} else if i == 2 {
		d = 256 * 256
	} else if i == 3 {
		d = 256 * 256 * 256
	}
	return byte(n / d % 256)
}

// specConfFrame: f announces protocol 2.0 and these options.
func specConfFrame(f []byte, timeout time.Duration, size uint32, name []byte) bool {
	if len(f) != 11+len(name) {
		return false
	}
	ms, n := spConfMs(timeout), spConfSize(size)
	return f[0] == message.MsgAcceptConf && f[1] == 2 && f[2] == 0 &&
		f[3] == spLE32(ms, 0) && f[4] == spLE32(ms, 1) && f[5] == spLE32(ms, 2) && f[6] == spLE32(ms, 3) &&
		f[7] == spLE32(n, 0) && f[8] == spLE32(n, 1) && f[9] == spLE32(n, 2) && f[10] == spLE32(n, 3) &&
		vrt.BytesEq(f[11:], name)
}

func prove_C23_NewServer() {
	vrt.PanicProp("C20")
	vrt.Expect("created")
	vrt.Expect("buffer too small")
	vrt.Expect("timeout")
	vrt.Expect("missing")
	impl, trans, sess, keys := &specImpl{}, &specTransport{}, &specSessions{}, &specKeys{key: "key"}
	var i ServerImplementation = impl
	var t Transport = trans
	noImpl, noTrans := vrt.Bool("no-implementation"), vrt.Bool("no-transport")
	if noImpl {
		i = nil
	}
	if noTrans {
		t = nil
	}
	o := ServerOptions{
		Sessions:              OptionValue(vrt.Int("sessions", int(OptionUnset), int(Enabled))),
		SessionManager:        sess,
		MaxSessionConnections: uint(vrt.Int("maxConns", 0, 1<<30)),
		ReadTimeout:           vrt.Dur("timeout"),
		MessageBufferSize:     vrt.U32("size"),
		SubProtocolName:       vrt.Bytes("sub-protocol"),
	}
	if vrt.Bool("keys") {
		o.SessionKeyGenerator = keys
	}
	logs := vrt.Bool("logs")
	if logs {
		o.WarnLog, o.ErrorLog = specLog(), specLog()
	}
	parser := vrt.Bool("parser")
	parsed := &specInfo{}
	if parser {
		o.SessionInfoParser = func(map[string]interface{}) SessionInfo { return parsed }
	}
	trans.initErr = vrt.Err("transport")
	s, err := NewServer(i, o, t)
	if noImpl || noTrans {
		vrt.Cover("missing")
		vrt.Assert("C23.missing-part-refused", err != nil && s == nil && trans.inits == 0)
		return
	}
	if o.MessageBufferSize >= 1 && o.MessageBufferSize <= 31 {
		vrt.Cover("buffer too small")
		vrt.Assert("C23.small-buffer-refused", err != nil && s == nil && trans.inits == 0)
		return
	}
	if o.ReadTimeout/time.Millisecond > 4294967295 {
		vrt.Cover("timeout")
		vrt.Assert("C23.unfit-timeout-refused", err != nil && s == nil && trans.inits == 0)
		return
	}
	vrt.Assert("C23.transport-failure-reported", (err != nil) == (trans.initErr != nil) && (s == nil) == (err != nil))
	if err != nil {
		return
	}
	vrt.Cover("created")
	srv := s.(*server)
	p := srv.options
	vrt.Assert("C23.implementation-and-transport", srv.impl == i && srv.transport == t && trans.inits == 1)
	vrt.Assert("C23.sessions", srv.sessionsEnabled == (o.Sessions != Disabled) && (p.Sessions == Disabled) == (o.Sessions == Disabled))
	vrt.Assert("C23.session-manager", srv.sessionManager == SessionManager(sess))
	if o.SessionKeyGenerator != nil {
		vrt.Assert("C23.key-generator", srv.sessionKeyGen == SessionKeyGenerator(keys))
	} else {
		_, ok := srv.sessionKeyGen.(*DefaultSessionKeyGenerator)
		vrt.Assert("C23.key-generator", ok || o.Sessions == Disabled)
	}
	vrt.Assert("C23.connection-limit", srv.sessionRegistry.maxConns == o.MaxSessionConnections)
	vrt.Assert("C23.logs", srv.warnLog != nil && srv.errorLog != nil && (!logs || srv.warnLog == o.WarnLog && srv.errorLog == o.ErrorLog))
	vrt.Assert("C23.info-parser", srv.sessionInfoParser != nil && (!parser || srv.sessionInfoParser(nil) == SessionInfo(parsed)))
	vrt.Assert("C23.buffer-size", int(p.MessageBufferSize) == spConfSize(o.MessageBufferSize))
	vrt.Assert("C23.read-timeout", p.ReadTimeout == o.ReadTimeout || o.ReadTimeout < time.Second && p.ReadTimeout == time.Minute)
	vrt.Assert("C23.announces-options", specConfFrame(srv.configMsg, o.ReadTimeout, o.MessageBufferSize, o.SubProtocolName))
	vrt.Assert("C23.not-shutting-down", !trans.isShutting() && srv.ActiveSessionsNum() == 0)
}

// ---- one connection ----

// specPeer sends any number of messages of any type and then fails.
type specPeer struct {
	*specSock
	impl    *specImpl
	reads   int
	typ     byte
	id      [8]byte
	pending bool // the hook has yet to run for the message sent last
}

func (p *specPeer) Read(into *message.Message, deadline time.Time) ErrSockRead {
	vrt.Assert("C33.previous-message-handled", !p.pending)
	vrt.Assert("C33.hooked-up-before-reading", p.impl.connected == 1 && p.impl.disconnected == 0)
	if !vrt.Bool("more") {
		return specReadErr{closed: vrt.Bool("close-error")}
	}
	p.reads++
	p.typ = vrt.Byte("type")
	p.id = vrt.Bytes8("id")
	into.MsgType = p.typ
	into.MsgIdentifier = p.id
	into.MsgIdentifierBytes = into.MsgIdentifier[:]
	into.MsgPayload.Data = vrt.Bytes("payload")
	p.pending = spSignal(p.typ) || spRequest(p.typ) && p.typ != message.MsgRequestRestoreSession && p.typ != message.MsgRequestCloseSession
	return nil
}

// prove_C20_C23_Handshake: the beginning of every connection, for all options.
func prove_C20_C23_Handshake() {
	vrt.Expect("refused")
	vrt.Expect("served")
	vrt.PanicProp("C20")
	timeout, size, name := vrt.Dur("timeout"), vrt.U32("size"), vrt.Bytes("sub-protocol")
	impl, trans := &specImpl{}, &specTransport{}
	s, err := NewServer(impl, ServerOptions{Sessions: Disabled, WarnLog: specLog(), ErrorLog: specLog(),
		ReadTimeout: timeout, MessageBufferSize: size, SubProtocolName: name}, trans)
	vrt.Assume(err == nil)
	srv := s.(*server)
	sock := &specSock{connected: true, faulty: true}
	opts := ConnectionOptions{ConcurrencyLimit: vrt.Int("limit", -1, 2)}
	impl.onConnected = func(c Connection) {
		vrt.Assert("C23.announced-first", len(sock.frames) == 1 && sock.closes == 0 && impl.options.ConcurrencyLimit == opts.ConcurrencyLimit &&
			specConfFrame(sock.frames[0], timeout, size, name))
	}
	trans.onNew(opts, sock)
	vrt.Assert("C20.writer-used-properly", !sock.misused)
	vrt.Assert("C23.no-handler", impl.signals == 0 && impl.requests == 0)
	if impl.connected == 0 {
		vrt.Cover("refused")
		vrt.Assert("C23.unannounced-connection-closed", sock.failed && sock.closes == 1 && len(sock.frames) == 0)
		vrt.Assert("C23.no-hook", impl.disconnected == 0 && len(srv.connections) == 0)
		return
	}
	vrt.Cover("served")
	vrt.Assert("C23.connected-once", impl.connected == 1 && len(sock.frames) == 1)
	vrt.Assert("C20.disconnected-once", impl.disconnected == 1 && sock.closes == 1)
}

// prove_C20_C33_Messages: any number of messages of any type, served from the beginning of the
// connection to its end.
func prove_C20_C33_Messages() {
	vrt.Expect("refused")
	vrt.Expect("served")
	e := specServer(Disabled, 0)
	impl := e.impl
	peer := &specPeer{specSock: &specSock{connected: true, faulty: true}, impl: impl}
	impl.onHandler = func(c Connection) {
		m := impl.msg.(*message.Message)
		vrt.Assert("C33.handles-latest-message", m.MsgType == peer.typ && vrt.BytesEq(m.MsgIdentifierBytes, peer.id[:]) && peer.pending)
		peer.pending = false
	}
	e.trans.onNew(ConnectionOptions{ConcurrencyLimit: vrt.Int("limit", 0, 1)}, peer)
	vrt.Assert("C20.writer-used-properly", !peer.misused)
	if impl.connected == 0 {
		vrt.Cover("refused")
		vrt.Assert("C33.nothing-handled", impl.signals == 0 && impl.requests == 0)
		return
	}
	vrt.Cover("served")
	vrt.Assert("C20.disconnected-once", impl.disconnected == 1 && peer.closes == 1)
	vrt.Assert("C33.all-handled", !peer.pending)
}

// ---- anything at any time ----

// specAnyState brings the connection into any state a client can bring it into.
func specAnyState(e *specEnv, con *connection, sock *specSock) {
	vrt.JSONFails(false)
	e.keys.key = vrt.String("key")
	vrt.Assume(len(e.keys.key) > 0 && vrt.ValidText(e.keys.key))
	state := vrt.Int("state", 0, 6)
	if state == 6 {
		con.CreateSession(&specInfo{vrt.String("x"), vrt.String("y")})
	} else if state > 2 {
		con.CreateSession(nil)
	}
	sock.frames, sock.writers = nil, 0
	sock.faulty = true
	switch state {
	case 1, 3:
		con.Close()
	case 2, 4:
		e.srv.Shutdown()
	}
	sock.connected = vrt.Bool("connected")
}

func specAnyServer() (*specEnv, *connection, *specSock) {
	e := specServer(OptionValue(vrt.Int("sessions", int(Disabled), int(Enabled))), specMaxConns())
	con, sock := e.connect(vrt.Int("limit", 1, 2), false)
	specAnyState(e, con, sock)
	return e, con, sock
}

// specUnlocked: no lock of the connection or its server is held.
func specUnlocked(e *specEnv, con *connection) {
	if !vrt.Native() {
		vrt.Assert("C19.locks-released", vrt.LocksHeld() == 0)
		return
	}
	vrt.Assert("C19.locks-released", con.stateLock.TryLock() && con.sessionLock.TryLock() && e.srv.opsLock.TryLock() &&
		e.srv.connectionsLock.TryLock() && e.srv.sessionRegistry.lock.TryLock())
	con.stateLock.Unlock()
	con.sessionLock.Unlock()
	e.srv.opsLock.Unlock()
	e.srv.connectionsLock.Unlock()
	e.srv.sessionRegistry.lock.Unlock()
}

// specAnyEnd: what holds after anything.
func specAnyEnd(e *specEnv, con *connection, sock *specSock) {
	specUnlocked(e, con)
	vrt.Assert("C20.writer-used-properly", !sock.misused)
	vrt.Assert("C14.answered-at-most-once", len(sock.frames) <= 1)
	vrt.Assert("C16.handler-no-longer-counted", int(con.tasks) == e.busy && int(e.srv.currentOps) == e.busy)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == e.held)
}

// prove_C20_AnyMessage: a message of any type that the hooks for requests don't handle, in any
// state, with failing sockets and hooks.
func prove_C20_AnyMessage() {
	vrt.Expect("signal")
	vrt.Expect("closing")
	e, con, sock := specAnyServer()
	rec := specReceive()
	msg := rec.msg
	vrt.Assume(!spRequest(msg.MsgType) || msg.MsgType == message.MsgRequestCloseSession)
	if msg.MsgType == message.MsgRequestCloseSession {
		e.sess.err = vrt.Err("session-hook")
		e.sess.panics = vrt.Bool("closed-hook-panics")
		vrt.Cover("closing")
	} else if spSignal(msg.MsgType) {
		vrt.Cover("signal")
	}
	e.srv.handleMessage(con, msg)
	vrt.RunSpawned()
	rec.done()
	specAnyEnd(e, con, sock)
}

// prove_C20_AnyRequest: a request in any state, with any handler result and failing sockets.
func prove_C20_AnyRequest() {
	vrt.Expect("answered")
	vrt.Expect("failed")
	e := specServer(Disabled, 0)
	con, sock := e.connect(vrt.Int("limit", 1, 2), false)
	sock.faulty = true
	state := vrt.Int("state", 0, 2)
	if state == 1 {
		con.Close()
	} else if state == 2 {
		e.srv.Shutdown()
	}
	sock.connected = vrt.Bool("connected")
	rec := specReceive()
	msg := rec.msg
	vrt.Assume(msg.MsgType == message.MsgRequestBinary || msg.MsgType == message.MsgRequestUtf8 || msg.MsgType == message.MsgRequestUtf16)
	specHandlerResult(e)
	e.srv.handleMessage(con, msg)
	vrt.RunSpawned()
	rec.done()
	specAnyEnd(e, con, sock)
	if len(sock.frames) > 0 {
		vrt.Cover("answered")
	} else if sock.failed {
		vrt.Cover("failed")
	}
}

// prove_C20_AnyRestore: a restoring request in any state, with failing sockets and hooks.
func prove_C20_AnyRestore() {
	vrt.Expect("looked up")
	e, con, sock := specAnyServer()
	rec, _ := specSessionMsg(message.MsgRequestRestoreSession)
	e.sess.err = vrt.Err("session-hook")
	if vrt.Bool("found") {
		l := &specLookup{creation: specTime("creation"), lookup: specTime("lookup")}
		if vrt.Bool("info") {
			l.info = map[string]interface{}{"x": "x"}
		}
		e.sess.result = l
	}
	switch vrt.Int("parser", 0, 2) {
	case 0:
		e.srv.sessionInfoParser = nil
	case 1:
		e.srv.sessionInfoParser = func(map[string]interface{}) SessionInfo { return nil }
	}
	e.srv.handleMessage(con, rec.msg)
	vrt.RunSpawned()
	rec.done()
	specAnyEnd(e, con, sock)
	if e.sess.lookups > 0 {
		vrt.Cover("looked up")
	}
}

// prove_C20_AnyCall: any method of a connection in any state, with failing sockets and hooks.
func prove_C20_AnyCall() {
	e := specServer(OptionValue(vrt.Int("sessions", int(Disabled), int(Enabled))), specMaxConns())
	con, sock := e.connect(0, false)
	specAnyState(e, con, sock)
	var c Connection = con
	switch vrt.Int("call", 0, 11) {
	case 0:
		vrt.JSONFails(true)
		e.sess.err = vrt.Err("created-hook")
		c.CreateSession(nil)
	case 1:
		c.CreateSession(&specInfo{vrt.String("x"), vrt.String("y")})
	case 2:
		e.sess.err = vrt.Err("session-hook")
		e.sess.panics = vrt.Bool("closed-hook-panics")
		c.CloseSession()
	case 3:
		c.Close()
	case 4:
		c.Signal(vrt.Bytes("name"), Payload{Encoding: PayloadEncoding(vrt.Int("encoding", 0, 2)), Data: vrt.Bytes("payload")})
	case 5:
		c.Session()
	case 6:
		c.SessionInfo(vrt.String("field"))
	case 7:
		c.SessionKey()
	case 8:
		c.SessionCreation()
	case 9:
		c.Info(vrt.Int("info", -8, 8))
	case 10:
		e.srv.SessionConnections(e.keys.key)
	case 11:
		c.RemoteAddr()
		c.Creation()
		c.IsActive()
		c.HasSession()
	}
	vrt.RunSpawned()
	specAnyEnd(e, con, sock)
}

// ---- signals to a client ----

func prove_C06_Signal() {
	vrt.Expect("empty")
	vrt.Expect("too large")
	vrt.Expect("invalid")
	vrt.Expect("sent")
	e := specServer(Disabled, 0)
	n := vrt.U32("buffer-size")
	e.srv.options.MessageBufferSize = n
	con, sock := e.connect(0, true)
	name, data := vrt.Bytes("name"), vrt.Bytes("payload")
	encoding := PayloadEncoding(vrt.Int("encoding", 0, 2))
	err := con.Signal(name, Payload{Encoding: encoding, Data: data})
	vrt.Assert("C05.writer-used-properly", !sock.misused && !sock.open)
	if len(name) == 0 && len(data) == 0 {
		vrt.Cover("empty")
		_, protocol := err.(ErrProtocol)
		vrt.Assert("C06.content-required", protocol && sock.writers == 0)
		return
	}
	size := 2 + len(name) + len(data)
	if encoding == EncodingUtf16 && len(name)%2 != 0 {
		size++
	}
	if size > int(n) {
		vrt.Cover("too large")
		_, overflow := err.(ErrBufferOverflow)
		vrt.Assert("C06.too-large-refused", overflow && sock.writers == 0)
		return
	}
	vrt.Assert("C06.reports-failure", (err == nil) == (len(sock.frames) == 1))
	if sock.failed {
		return
	}
	printable := vrt.Forall(0, len(name), func(i int) bool { return name[i] >= 32 && name[i] <= 126 })
	if len(name) > 255 || !printable || encoding == EncodingUtf16 && len(data)%2 != 0 {
		vrt.Cover("invalid")
		vrt.Assert("C06.invalid-refused", err != nil)
		return
	}
	vrt.Cover("sent")
	vrt.Assert("C06.valid-sent", err == nil)
	f := sock.frames[0]
	vrt.Assert("C06.sent-completely", len(f) == size && int(f[1]) == len(name) && vrt.BytesEq(f[2:2+len(name)], name) && vrt.BytesEq(f[size-len(data):], data))
}

// ---- closing all connections of a session ----

// prove_C11_C12_C25_CloseSession: bounded by two connections.
func prove_C11_C12_C25_CloseSession() {
	vrt.Unroll(4)
	vrt.Expect("both")
	vrt.Expect("one")
	vrt.Expect("none")
	vrt.JSONFails(false)
	e := specServer(Enabled, 0)
	keys := []string{"", ""}
	cons, socks := []*connection{}, []*specSock{}
	for i := 0; i < 2; i++ {
		c, s := e.connect(0, false)
		cons, socks = append(cons, c), append(socks, s)
		switch vrt.Int("session", 0, 2) {
		case 1:
			keys[i] = "a"
		case 2:
			keys[i] = "b"
		}
		if e.keys.key = keys[i]; keys[i] != "" {
			c.CreateSession(nil)
		}
		s.frames, s.writers = nil, 0
	}
	s := socks[0]
	s.faulty = true
	e.sess.err = vrt.Err("closed-hook")
	e.sess.panics = vrt.Bool("closed-hook-panics")
	affected, errs, general := e.srv.CloseSession("a")
	n, failed := 0, 0
	for i := range cons {
		if keys[i] != "a" {
			vrt.Assert("C12.others-unaffected", cons[i].SessionKey() == keys[i] && len(socks[i].frames) == 0)
			continue
		}
		n++
		vrt.Assert("C12.session-closed", !cons[i].HasSession())
		notified := len(socks[i].frames) == 1 && len(socks[i].frames[0]) == 1 && socks[i].frames[0][0] == message.MsgNotifySessionClosed
		vrt.Assert("C12.closure-notified", notified == !socks[i].failed)
		listed := 0
		for j := range affected {
			if affected[j] == Connection(cons[i]) {
				listed++
				vrt.Assert("C11.error-of-connection", (errs[j] != nil) == socks[i].failed)
			}
		}
		vrt.Assert("C11.affected-listed-once", listed == 1)
		if socks[i].failed {
			failed++
		}
	}
	vrt.Assert("C11.all-affected-listed", len(affected) == n && len(errs) == n && (general != nil) == (failed > 0))
	vrt.Assert("C11.session-removed", e.srv.SessionConnectionsNum("a") == -1 && e.srv.SessionConnections("a") == nil)
	switch n {
	case 0:
		vrt.Cover("none")
		vrt.Assert("C25.nothing-destroyed", e.sess.closed == 0)
	case 1:
		vrt.Cover("one")
		vrt.Assert("C25.destroyed-once-by-last", e.sess.closed == 1 && e.sess.closedKey == "a")
	case 2:
		vrt.Cover("both")
		vrt.Assert("C25.destroyed-once-by-last", e.sess.closed == 1 && e.sess.closedKey == "a")
	}
}
