package webwire

// The environment of the server in the contracts: sockets, transport, user-space hooks. Every
// ghost may behave in every way its interface allows.

import (
	"context"
	"errors"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/url"
	"time"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

var (
	errSpecSock = errors.New("spec: socket failure")
	errSpecHook = errors.New("spec: hook failure")
)

func specLog() *log.Logger { return log.New(ioutil.Discard, "", 0) }

// ---- socket ----

type specSock struct {
	faulty    bool     // operations may fail
	connected bool     //
	frames    [][]byte // delivered frames
	cur       []byte   // frame being written
	open      bool     // a writer is handed out
	failed    bool     // an operation failed
	misused   bool     // writer used in a way that blocks or corrupts
	writers   int      // writers handed out
	closes    int      // calls of Close
	onClose   func()
	onDeliver func()
	reads     []specRead
}

type specRead struct {
	fill func(m *message.Message)
	err  ErrSockRead
}

type specReadErr struct{ closed bool }

func (e specReadErr) Error() string    { return "spec: read failure" }
func (e specReadErr) IsCloseErr() bool { return e.closed }

func (s *specSock) fail(what string) bool {
	if s.faulty && vrt.Bool(what) {
		s.failed = true
		return true
	}
	return false
}

func (s *specSock) GetWriter() (io.WriteCloser, error) {
	if s.open {
		s.misused = true // blocks until the other writer is closed
	}
	if s.fail("getwriter-fails") {
		return nil, errSpecSock
	}
	s.open = true
	s.writers++
	s.cur = nil
	return &specWriter{sock: s}, nil
}

func (s *specSock) Read(into *message.Message, deadline time.Time) ErrSockRead {
	if len(s.reads) < 1 {
		return specReadErr{closed: true}
	}
	r := s.reads[0]
	s.reads = s.reads[1:]
	if r.err != nil {
		return r.err
	}
	r.fill(into)
	return nil
}

func (s *specSock) IsConnected() bool    { return s.connected }
func (s *specSock) RemoteAddr() net.Addr { return nil }
func (s *specSock) Close() error {
	s.closes++
	s.connected = false
	if s.onClose != nil {
		s.onClose()
	}
	if s.fail("sockclose-fails") {
		return errSpecSock
	}
	return nil
}

type specWriter struct {
	sock   *specSock
	closed bool
	broken bool
}

func (w *specWriter) Write(p []byte) (int, error) {
	if w.closed {
		w.sock.misused = true
	}
	if w.sock.fail("write-fails") {
		w.broken = true
		return 0, errSpecSock
	}
	w.sock.cur = append(w.sock.cur, p...)
	return len(p), nil
}

func (w *specWriter) Close() error {
	if w.closed {
		w.sock.misused = true
		return errSpecSock
	}
	w.closed = true
	w.sock.open = false
	if w.broken || len(w.sock.cur) < 1 {
		return errSpecSock // nothing to deliver
	}
	if w.sock.fail("close-fails") {
		return errSpecSock
	}
	w.sock.frames = append(w.sock.frames, w.sock.cur)
	if w.sock.onDeliver != nil {
		w.sock.onDeliver()
	}
	return nil
}

// ---- transport ----

type specTransport struct {
	initErr    error
	err        error
	inits      int
	shutdowns  int
	onShutdown func()
	isShutting IsShuttingDown
	onNew      OnNewConnection
}

func (t *specTransport) Initialize(o ServerOptions, s IsShuttingDown, n OnNewConnection) error {
	t.inits++
	t.isShutting, t.onNew = s, n
	return t.initErr
}
func (t *specTransport) Serve() error { return nil }
func (t *specTransport) Shutdown() error {
	t.shutdowns++
	if t.onShutdown != nil {
		t.onShutdown()
	}
	return t.err
}
func (t *specTransport) Address() url.URL { return url.URL{} }

// ---- hooks ----

type specImpl struct {
	connected    int
	disconnected int
	signals      int
	requests     int
	onHandler    func(c Connection)
	onConnected  func(c Connection)
	options      ConnectionOptions
	msg          Message
	payload      Payload
	sent         []byte // its data when it was returned
	err          error
}

func (i *specImpl) OnClientConnected(o ConnectionOptions, c Connection) {
	i.connected++
	i.options = o
	if i.onConnected != nil {
		i.onConnected(c)
	}
}
func (i *specImpl) OnClientDisconnected(c Connection, reason error) { i.disconnected++ }
func (i *specImpl) OnSignal(ctx context.Context, c Connection, m Message) {
	i.signals++
	i.msg = m
	if i.onHandler != nil {
		i.onHandler(c)
	}
}
func (i *specImpl) OnRequest(ctx context.Context, c Connection, m Message) (Payload, error) {
	i.requests++
	i.msg = m
	if i.onHandler != nil {
		i.onHandler(c)
	}
	return i.payload, i.err
}

type specSessions struct {
	created   int
	closed    int
	lookups   int
	lastKey   string
	closedKey string
	panics    bool
	err       error
	result    SessionLookupResult
	onCreated func(c Connection)
	onClosed  func()
	onLookup  func()
}

func (m *specSessions) OnSessionCreated(c Connection) error {
	m.created++
	if m.onCreated != nil {
		m.onCreated(c)
	}
	return m.err
}
func (m *specSessions) OnSessionLookup(key string) (SessionLookupResult, error) {
	m.lookups++
	m.lastKey = key
	if m.onLookup != nil {
		m.onLookup()
	}
	return m.result, m.err
}
func (m *specSessions) OnSessionClosed(key string) error {
	m.closed++
	m.closedKey = key
	if m.onClosed != nil {
		m.onClosed()
	}
	if m.panics {
		panic(errSpecHook)
	}
	return m.err
}

type specKeys struct{ key string }

func (k *specKeys) Generate() string { return k.key }

// ---- server and connections ----

type specEnv struct {
	srv   *server
	impl  *specImpl
	sess  *specSessions
	keys  *specKeys
	trans *specTransport
	busy  int   // other handlers of the connection that are running
	held  int64 // handler slots they hold
}

// specServer is a fresh server made by NewServer.
func specServer(sessions OptionValue, maxConns uint) *specEnv {
	vrt.PanicProp("C20")
	e := &specEnv{impl: &specImpl{}, sess: &specSessions{}, keys: &specKeys{key: "key"}, trans: &specTransport{}}
	s, err := NewServer(e.impl, ServerOptions{
		Sessions: sessions, SessionManager: e.sess, SessionKeyGenerator: e.keys, MaxSessionConnections: maxConns,
		WarnLog: specLog(), ErrorLog: specLog(),
	}, e.trans)
	vrt.Assume(err == nil)
	e.srv = s.(*server)
	return e
}

func (e *specEnv) connect(limit int, faulty bool) (*connection, *specSock) {
	s := &specSock{connected: true, faulty: faulty}
	return newConnection(s, e.srv, ConnectionOptions{ConcurrencyLimit: limit}), s
}

// others: another handler of the connection may be running.
func (e *specEnv) others(con *connection) {
	if vrt.Bool("busy") {
		e.srv.registerHandler(con, &message.Message{MsgType: message.MsgSignalBinary})
		e.busy, e.held = 1, vrt.SemHeld(con.handlerSlots)
	}
}

// shutdown requests a shutdown. While another handler runs it is only the first half, because the
// second waits.
func (e *specEnv) shutdown() {
	if e.busy < 1 {
		e.srv.Shutdown()
		return
	}
	e.srv.opsLock.Lock()
	e.srv.shutdown = true
	e.srv.opsLock.Unlock()
}

// share lets other threads use the connection and its server.
func (e *specEnv) share(con *connection) {
	vrt.Share(e.srv)
	vrt.Share(e.srv.sessionRegistry)
	vrt.Share(con)
}

func specMaxConns() uint { return uint(vrt.Int("maxConns", 0, 1<<30)) }
