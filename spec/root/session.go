package webwire

// Contracts of creating, restoring and closing sessions (C12, C13, C25, C26).

import (
	"time"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// ---- session and registration ----

const vguard_connection_sessionLock = "session view:map[string]map[*ww.connection]struct{} view:map[*ww.connection]struct{}"
const vprop_connection_sessionLock = "C12"

// registered under exactly the key of its session
func vinv_connection_sessionLock(c *connection) bool {
	return vrt.ForallKeys(c.srv.sessionRegistry.registry, c.srv.sessionRegistry.registry, func(k string) bool {
		return spIn(c.srv.sessionRegistry, k, c) == (c.session != nil && c.session.Key == k)
	})
}

// specInfo is session info with two fields.
type specInfo struct{ x, y string }

func (i *specInfo) Fields() []string { return []string{"x", "y"} }
func (i *specInfo) Value(f string) interface{} {
	if f == "x" {
		return i.x
	}
	return i.y
}
func (i *specInfo) Copy() SessionInfo { return &specInfo{i.x, i.y} }

// specSessionOf: the encoded session is the session.
func specSessionOf(b []byte, key string, creation, lookup time.Time) bool {
	return vrt.JSONIs(b, func(j JSONEncodedSession) bool {
		return j.Key == key && j.Creation.Equal(creation) && j.LastLookup.Equal(lookup)
	})
}

func specInfoFields(b []byte, x, y string) bool {
	return vrt.JSONIs(b, func(j JSONEncodedSession) bool {
		a, ok1 := j.Info["x"].(string)
		c, ok2 := j.Info["y"].(string)
		return len(j.Info) == 2 && ok1 && ok2 && a == x && c == y
	})
}

// prove_C12_C13_C25_Create: in every state, with other threads at work.
func prove_C12_C13_C25_Create() {
	vrt.Expect("created")
	vrt.Expect("active")
	vrt.Expect("limit")
	vrt.Expect("failed")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(0, true)
	r := e.srv.sessionRegistry
	e.keys.key = vrt.String("key")
	vrt.Assume(len(e.keys.key) > 0 && vrt.ValidText(e.keys.key))
	e.sess.err = vrt.Err("created-hook")
	sent := false
	e.sess.onCreated = func(c Connection) {
		sent = len(sock.frames) == 1
		vrt.Assert("C25.created-hook-for-connection", c == Connection(con))
	}
	info := &specInfo{vrt.String("x"), vrt.String("y")}
	vrt.Assume(vrt.ValidText(info.x) && vrt.ValidText(info.y))
	e.share(con)
	err := con.CreateSession(info)
	a, b := vrt.Entry(&con.sessionLock, con), vrt.Exit(&con.sessionLock, con)
	ra, rb := vrt.Entry(r.lock, r), vrt.Exit(r.lock, r)
	vrt.Assert("C13.limit-kept", r.maxConns == 0 || uint(len(rb.registry[e.keys.key])) <= r.maxConns)
	vrt.Assert("C12.others-unaffected", specOnlyChanged(ra, rb, e.keys.key, con))
	vrt.Assert("C25.not-destroyed-by-creation", e.sess.closed == 0)
	if err != nil {
		vrt.Assert("C12.failed-changes-nothing", a.session == b.session)
		vrt.Assert("C25.failed-creation-notifies-nobody", len(sock.frames) == 0 && e.sess.created == 0)
		if a.session != nil {
			vrt.Cover("active")
		} else if sock.failed {
			vrt.Cover("failed")
		} else if r.maxConns > 0 && uint(len(ra.registry[e.keys.key])) >= r.maxConns {
			vrt.Cover("limit")
		}
		return
	}
	vrt.Cover("created")
	vrt.Assert("C12.second-session-refused", a.session == nil)
	vrt.Assert("C12.session-assigned", b.session != nil && b.session.Key == e.keys.key && b.session.Info == SessionInfo(info))
	vrt.Assert("C12.session-registered", spIn(rb, e.keys.key, con))
	vrt.Assert("C25.created-hook-once-after-notification", e.sess.created == 1 && sent)
	if len(sock.frames) == 1 && b.session != nil {
		f := sock.frames[0]
		vrt.Assert("C25.creation-notified", len(f) > 0 && f[0] == message.MsgNotifySessionCreated)
		vrt.Assert("C25.notified-session-data", specSessionOf(f[1:], b.session.Key, b.session.Creation, b.session.LastLookup))
		vrt.Assert("C25.notified-session-info", specInfoFields(f[1:], info.x, info.y))
	} else {
		vrt.Assert("C25.creation-notified", false)
	}
}

// prove_C12_CreateBadKey: the key generator returns an empty key.
func prove_C12_CreateBadKey() {
	e := specServer(Enabled, 0)
	con, sock := e.connect(0, false)
	e.keys.key = ""
	vrt.JSONFails(false)
	func() {
		defer func() { recover() }()
		con.CreateSession(nil)
	}()
	vrt.Assert("C12.failed-changes-nothing", con.session == nil && e.srv.ActiveSessionsNum() == 0 && len(sock.frames) == 0 && e.sess.created == 0)
	e.keys.key = "key"
	vrt.Assert("C12.not-stuck", con.CreateSession(nil) == nil)
}

// specBadInfo is session info whose methods panic.
type specBadInfo struct{ armed bool }

func (i *specBadInfo) trip() {
	if i.armed {
		panic(errSpecHook)
	}
}

func (i *specBadInfo) Fields() []string           { i.trip(); return nil }
func (i *specBadInfo) Value(f string) interface{} { i.trip(); return nil }
func (i *specBadInfo) Copy() SessionInfo          { i.trip(); return i }

// specCaught calls f and recovers its panic.
func specCaught(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// prove_C19_PanickingInfo: session info of the user panics in whatever operation uses it.
func prove_C19_PanickingInfo() {
	vrt.Expect("panicked")
	e := specServer(Enabled, 0)
	con, sock := e.connect(0, false)
	vrt.JSONFails(false)
	info := &specBadInfo{}
	op := vrt.Int("operation", 0, 4)
	if op == 0 {
		info.armed = true
	}
	panicked := specCaught(func() { con.CreateSession(info) })
	info.armed = true
	if op > 0 {
		panicked = specCaught(func() {
			switch op {
			case 1:
				con.SessionInfo(vrt.String("field"))
			case 2:
				con.Session()
			case 3:
				con.SessionKey()
			case 4:
				e.srv.CloseSession("key")
			}
		})
	}
	if panicked {
		vrt.Cover("panicked")
	}
	specUnlocked(e, con)
	con.CloseSession()
	vrt.Assert("C19.usable-afterwards", !con.HasSession() && !sock.misused)
}

func prove_C12_C25_Close() {
	vrt.Expect("no session")
	vrt.Expect("last")
	vrt.Expect("others left")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(0, true)
	r := e.srv.sessionRegistry
	e.sess.err = vrt.Err("closed-hook")
	e.sess.panics = vrt.Bool("closed-hook-panics")
	e.share(con)
	err := con.CloseSession()
	specClosed(e, con, r)
	a := vrt.Entry(&con.sessionLock, con)
	if a.session == nil {
		vrt.Cover("no session")
		vrt.Assert("C12.nothing-to-close", err == nil && len(sock.frames) == 0)
		return
	}
	if e.sess.closed > 0 {
		vrt.Cover("last")
	} else {
		vrt.Cover("others left")
	}
	if sock.failed {
		vrt.Assert("C12.closure-not-notified", err != nil && len(sock.frames) == 0)
	} else {
		vrt.Assert("C12.closure-notified", err == nil && len(sock.frames) == 1 && len(sock.frames[0]) == 1 && sock.frames[0][0] == message.MsgNotifySessionClosed)
	}
}

// specClosed: the session of con was closed explicitly.
func specClosed(e *specEnv, con *connection, r *sessionRegistry) {
	a, b := vrt.Entry(&con.sessionLock, con), vrt.Exit(&con.sessionLock, con)
	ra, rb := vrt.Entry(r.lock, r), vrt.Exit(r.lock, r)
	vrt.Assert("C12.session-reset", b.session == nil)
	vrt.Assert("C25.created-hook-not-called", e.sess.created == 0)
	if a.session == nil {
		vrt.Assert("C25.nothing-destroyed", e.sess.closed == 0)
		return
	}
	key := a.session.Key
	vrt.Assert("C12.session-deregistered", !spIn(rb, key, con))
	vrt.Assert("C12.others-unaffected", specOnlyChanged(ra, rb, key, con))
	last := 0
	if len(ra.registry[key]) == 1 {
		last = 1
	}
	vrt.Assert("C25.destroyed-once-by-last", e.sess.closed == last && (last == 0 || e.sess.closedKey == key))
}

// prove_C12_Disabled: without sessions.
func prove_C12_Disabled() {
	e := specServer(Disabled, 0)
	con, sock := e.connect(0, true)
	_, d1 := con.CreateSession(nil).(ErrSessionsDisabled)
	_, d2 := con.CloseSession().(ErrSessionsDisabled)
	vrt.Assert("C12.sessions-disabled", d1 && d2 && con.session == nil && sock.writers == 0 && e.srv.ActiveSessionsNum() == 0)
}

// prove_C12_Accessors: what a connection reports about its session is what it has.
func prove_C12_Accessors() {
	e := specServer(Enabled, 0)
	con, _ := e.connect(0, false)
	e.share(con)
	var s *Session
	read := func() *connection { return vrt.Entry(&con.sessionLock, con) }
	has := con.HasSession()
	vrt.Assert("C12.has-session", has == (read().session != nil))
	key := con.SessionKey()
	s = read().session
	vrt.Assert("C12.session-key", s == nil && key == "" || s != nil && key == s.Key)
	creation := con.SessionCreation()
	s = read().session
	vrt.Assert("C12.session-creation", s == nil && creation.IsZero() || s != nil && creation.Equal(s.Creation))
	vrt.RunSpawned()
}

// ---- restoring ----

type specLookup struct {
	creation, lookup time.Time
	info             map[string]interface{}
}

func (l *specLookup) Creation() time.Time          { return l.creation }
func (l *specLookup) LastLookup() time.Time        { return l.lookup }
func (l *specLookup) Info() map[string]interface{} { return l.info }

func specTime(name string) time.Time { return time.Unix(int64(vrt.Int(name, 0, 1<<32)), 0) }

// specReply: exactly one frame was delivered, a reply to the request id of a type that has no payload.
func specReply(sock *specSock, id []byte, typ byte) bool {
	return len(sock.frames) == 1 && len(sock.frames[0]) == 9 && sock.frames[0][0] == typ && specIdentOf(sock.frames[0], id)
}

func specIdentOf(f []byte, id []byte) bool {
	return len(f) >= 9 && vrt.BytesEq(f[1:9], id)
}

func prove_C12_C13_C26_Restore() {
	vrt.Expect("restored")
	vrt.Expect("active")
	vrt.Expect("limit")
	vrt.Expect("not found")
	vrt.Expect("failed")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(0, false)
	r := e.srv.sessionRegistry
	rec, id := specSessionMsg(message.MsgRequestRestoreSession)
	msg := rec.msg
	key := string(msg.MsgPayload.Data)
	l := &specLookup{creation: specTime("creation"), lookup: specTime("lookup"), info: map[string]interface{}{"x": vrt.String("x")}}
	e.sess.err = vrt.Err("lookup")
	found := vrt.Bool("found")
	if found {
		e.sess.result = l
	}
	parsed := &specInfo{}
	parser := vrt.Bool("parser")
	parses := 0
	e.srv.sessionInfoParser = nil
	if parser {
		e.srv.sessionInfoParser = func(m map[string]interface{}) SessionInfo {
			parses++
			vrt.Assert("C26.info-parsed", vrt.SameRef(m, l.info))
			return parsed
		}
	}
	e.share(con)
	vrt.SetOwn(&con.stateLock, 2) // another handler of the connection keeps it open
	vrt.SetOwn(e.srv.opsLock, 1)
	e.srv.handleSessionRestore(con, msg)
	a, b := vrt.Entry(&con.sessionLock, con), vrt.Exit(&con.sessionLock, con)
	rb := vrt.Exit(r.lock, r)
	vrt.Assert("C13.limit-kept", r.maxConns == 0 || uint(len(rb.registry[key])) <= r.maxConns)
	vrt.Assert("C25.restore-calls-no-hook", e.sess.created == 0 && e.sess.closed == 0)
	vrt.Assert("C26.looked-up-at-most-once", e.sess.lookups <= 1 && (e.sess.lookups == 0 || e.sess.lastKey == key))
	ok := len(sock.frames) == 1 && len(sock.frames[0]) > 0 && sock.frames[0][0] == message.MsgReplyUtf8
	if ok {
		vrt.Cover("restored")
		f := sock.frames[0]
		vrt.Assert("C26.answered-once", specIdentOf(f, id))
		vrt.Assert("C12.second-session-refused", a.session == nil)
		vrt.Assert("C26.only-if-found", e.sess.lookups == 1 && e.sess.err == nil && found)
		vrt.Assert("C26.session-as-stored", b.session != nil && b.session.Key == key && b.session.Creation.Equal(l.creation) && b.session.LastLookup.Equal(l.lookup))
		vrt.Assert("C26.info-as-parsed", b.session != nil && (!parser || b.session.Info == SessionInfo(parsed)))
		vrt.Assert("C26.reply-carries-session", specSessionOf(f[9:], key, l.creation, l.lookup))
		vrt.Assert("C12.session-registered", spIn(rb, key, con))
		return
	}
	vrt.Assert("C26.failed-changes-nothing", a.session == b.session)
	vrt.Assert("C26.failure-answered-once", len(sock.frames) == 1 && specIdentOf(sock.frames[0], id) && len(sock.frames[0]) == 9)
	if e.sess.lookups == 1 && e.sess.err != nil {
		vrt.Cover("failed")
		vrt.Assert("C26.failed-lookup-answered", specReply(sock, id, message.MsgReplyInternalError))
	} else if e.sess.lookups == 1 && !found {
		vrt.Cover("not found")
		vrt.Assert("C26.unknown-session-answered", specReply(sock, id, message.MsgReplySessionNotFound))
	} else if a.session != nil && e.sess.lookups == 1 {
		vrt.Cover("active")
		vrt.Assert("C12.active-session-kept", specReply(sock, id, message.MsgReplyInternalError))
	} else {
		limit := specReply(sock, id, message.MsgReplyMaxSessConnsReached)
		if limit {
			vrt.Cover("limit")
			ra := vrt.Entry(r.lock, r)
			vrt.Assert("C13.refused-only-at-limit", r.maxConns > 0 && uint(len(ra.registry[key])) >= r.maxConns)
		} else {
			vrt.Assert("C13.refusal-answered", specReply(sock, id, message.MsgReplyInternalError))
		}
	}
}
