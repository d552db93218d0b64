package webwire

// Histories of many connections, and real goroutines, run natively against the real code. They
// prove nothing (the verifier has nothing to do here): they find failing inputs for obligations
// of the other units.

import (
	"context"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// specCon is a connection and what is known about it.
type specCon struct {
	con    *connection
	sock   *specSock
	key    string
	closed bool
}

type specWorld struct {
	e    *specEnv
	max  uint
	cons []*specCon
}

func (w *specWorld) count(key string) (n int) {
	for _, c := range w.cons {
		if c.key == key && key != "" {
			n++
		}
	}
	return
}

// check compares what the server reports with what is known.
func (w *specWorld) check() {
	keys := map[string]int{"unknown": 0, "a": 0, "b": 0, "c": 0}
	for _, c := range w.cons {
		if !c.closed {
			vrt.Assert("C12.has-session", c.con.HasSession() == (c.key != ""))
			vrt.Assert("C12.session-key", c.con.SessionKey() == c.key)
			s := c.con.Session()
			vrt.Assert("C12.session-key", (s != nil) == (c.key != "") && (s == nil || s.Key == c.key))
		}
		if c.key != "" {
			keys[c.key]++
		}
	}
	active := 0
	for key, n := range keys {
		l := w.e.srv.SessionConnections(key)
		num := w.e.srv.SessionConnectionsNum(key)
		if n < 1 {
			vrt.Assert("C11.no-list", len(l) == 0 && num == -1)
			continue
		}
		active++
		vrt.Assert("C11.connections-counted", num == n)
		vrt.Assert("C11.list-length", len(l) == n)
		vrt.Assert("C13.limit-kept", w.max == 0 || uint(n) <= w.max)
		seen := map[Connection]bool{}
		for _, x := range l {
			vrt.Assert("C11.list-distinct", !seen[x])
			seen[x] = true
		}
		for _, c := range w.cons {
			vrt.Assert("C11.list-members", seen[Connection(c.con)] == (c.key == key))
		}
	}
	vrt.Assert("C11.sessions-counted", w.e.srv.ActiveSessionsNum() == active)
}

// create: a session is created on the connection by the application.
func (w *specWorld) create(c *specCon, key string) {
	e := w.e
	e.keys.key = key
	e.sess.err = nil
	if vrt.Int("hook-fails", 0, 5) == 0 {
		e.sess.err = errSpecHook
	}
	had, full := c.key != "", w.max > 0 && uint(w.count(key)) >= w.max
	err := c.con.CreateSession(&specInfo{"x", "y"})
	made := len(c.sock.frames) == 1 && c.sock.frames[0][0] == message.MsgNotifySessionCreated
	vrt.Assert("C12.second-session-refused", err != nil || !had && !c.closed)
	vrt.Assert("C13.limit-kept", err != nil || !full)
	if err == nil {
		c.key = key
		vrt.Assert("C25.creation-notified", made)
		vrt.Assert("C25.created-hook-once-after-notification", e.sess.created == 1)
	} else {
		vrt.Assert("C25.failed-creation-notifies-nobody", len(c.sock.frames) == 0 && e.sess.created == 0)
		vrt.Assert("C12.session-assigned", had || c.closed || full || c.sock.failed)
	}
	vrt.Assert("C25.not-destroyed-by-creation", e.sess.closed == 0)
}

// frame: a message of the client arrives.
func (w *specWorld) frame(c *specCon, f []byte) (closed bool) {
	m := message.NewMessage(1024)
	_, err := m.ReadBytes(f)
	vrt.Assume(err == nil)
	w.e.srv.handleMessage(c.con, m)
	return true
}

var specIdent = []byte{1, 2, 3, 4, 5, 6, 7, 8}

func (w *specWorld) reply(c *specCon) byte {
	if len(c.sock.frames) != 1 || len(c.sock.frames[0]) < 9 || !vrt.BytesEq(c.sock.frames[0][1:9], specIdent) {
		return 0
	}
	return c.sock.frames[0][0]
}

func (w *specWorld) restore(c *specCon, key string) {
	e := w.e
	e.sess.result, e.sess.err = nil, nil
	created, looked := time.Unix(1000, 0).UTC(), time.Unix(2000, 0).UTC()
	found := vrt.Int("found", 0, 4) > 0
	if found {
		e.sess.result = &specLookup{creation: created, lookup: looked}
	} else if vrt.Bool("lookup-fails") {
		e.sess.err = errSpecHook
	}
	had, full := c.key != "", w.max > 0 && uint(w.count(key)) >= w.max
	w.frame(c, append(append([]byte{message.MsgRequestRestoreSession}, specIdent...), key...))
	vrt.Assert("C25.restore-calls-no-hook", e.sess.created == 0 && e.sess.closed == 0)
	if c.closed {
		return
	}
	r := w.reply(c)
	if r == message.MsgReplyUtf8 {
		vrt.Assert("C26.only-if-found", found)
		vrt.Assert("C12.second-session-refused", !had)
		vrt.Assert("C13.limit-kept", !full)
		c.key = key
		s := c.con.Session()
		vrt.Assert("C26.session-as-stored", s != nil && s.Creation.Equal(created) && s.LastLookup.Equal(looked))
		vrt.Assert("C26.reply-carries-session", specSessionOf(c.sock.frames[0][9:], key, created, looked))
		return
	}
	if c.sock.failed {
		// the session may be restored though the reply is lost
		if k := c.con.SessionKey(); !had && found && !full && k == key {
			c.key = k
		}
		return
	}
	vrt.Assert("C26.failed-changes-nothing", c.con.HasSession() == had)
	switch {
	case r == message.MsgReplySessionNotFound:
		vrt.Assert("C26.unknown-session-answered", !found && e.sess.err == nil)
	case r == message.MsgReplyMaxSessConnsReached:
		vrt.Assert("C13.refused-only-at-limit", full)
	default:
		vrt.Assert("C14.answered-once", r == message.MsgReplyInternalError)
		vrt.Assert("C26.restored-when-possible", had || e.sess.err != nil)
	}
}

// close: the session is closed by the application or the client.
func (w *specWorld) close(c *specCon, request bool) {
	e := w.e
	e.sess.err, e.sess.panics = nil, vrt.Int("hook-panics", 0, 5) == 0
	last := 0
	if c.key != "" && w.count(c.key) == 1 {
		last = 1
	}
	var err error
	if request {
		w.frame(c, append([]byte{message.MsgRequestCloseSession}, specIdent...))
		if !c.closed && !c.sock.failed {
			vrt.Assert("C14.answered-once", len(c.sock.frames) > 0)
		}
	} else {
		err = c.con.CloseSession()
	}
	if c.closed {
		return
	}
	vrt.Assert("C25.destroyed-once-by-last", e.sess.closed == last && (last == 0 || e.sess.closedKey == c.key))
	vrt.Assert("C12.closure-notified", request || c.key == "" || c.sock.failed == (err != nil))
	c.key = ""
}

// closeAll: all connections of a session are closed by the application.
func (w *specWorld) closeAll(key string) {
	n := w.count(key)
	affected, errs, _ := w.e.srv.CloseSession(key)
	vrt.Assert("C11.all-affected-listed", len(affected) == n && len(errs) == n)
	closed := 0
	if n > 0 {
		closed = 1
	}
	vrt.Assert("C25.destroyed-once-by-last", w.e.sess.closed == closed)
	for _, c := range w.cons {
		if c.key == key && key != "" {
			c.key = ""
		}
	}
}

// prove_C11_C12_C13_C25_C26_History: any history of many connections (native only).
func prove_C11_C12_C13_C25_C26_History() {
	if !vrt.Native() {
		return
	}
	w := &specWorld{}
	n := []int{2, 4, 12, 300}[vrt.Int("size", 0, 3)]
	w.max = uint([]int{0, 0, 1, 2, n / 2}[vrt.Int("max", 0, 4)])
	w.e = specServer(Enabled, w.max)
	names := []string{"a", "b", "c"}[:vrt.Int("names", 1, 3)]
	if n > 12 {
		// many connections of one session
		for i := 0; i < n; i++ {
			c := &specCon{}
			c.con, c.sock = w.e.connect(0, false)
			w.cons = append(w.cons, c)
			c.con.CreateSession(nil)
			if c.con.HasSession() {
				c.key = "key"
			}
		}
		l := len(w.e.srv.SessionConnections("key"))
		vrt.Assert("C11.list-length", l == w.count("key") && (w.max != 0 || l == n) && w.e.srv.ActiveSessionsNum() == 1)
		vrt.Assert("C13.limit-kept", w.max == 0 || l == int(w.max))
		affected, _, _ := w.e.srv.CloseSession("key")
		vrt.Assert("C11.all-affected-listed", len(affected) == l && w.e.srv.ActiveSessionsNum() == 0)
		vrt.Assert("C25.destroyed-once-by-last", w.e.sess.closed == 1)
		return
	}
	for i := 0; i < n; i++ {
		c := &specCon{}
		c.con, c.sock = w.e.connect(0, false)
		w.cons = append(w.cons, c)
	}
	for step := 0; step < 4*n+4; step++ {
		c := w.cons[vrt.Int("con", 0, n-1)]
		key := names[vrt.Int("key", 0, len(names)-1)]
		e := w.e
		e.sess.created, e.sess.closed, e.sess.lookups, e.sess.closedKey, e.sess.panics = 0, 0, 0, "", false
		for _, x := range w.cons {
			x.sock.frames, x.sock.failed, x.sock.faulty = nil, false, false
		}
		c.sock.faulty = vrt.Int("faulty", 0, 3) == 0
		switch vrt.Int("op", 0, 9) {
		case 0, 1, 2:
			w.create(c, key)
		case 3, 4:
			w.restore(c, key)
		case 5:
			w.close(c, true)
		case 6:
			w.close(c, false)
		case 7:
			c.con.Close()
			c.closed, c.key = true, ""
			vrt.Assert("C25.disconnecting-destroys-nothing", e.sess.closed == 0)
		case 8:
			w.closeAll(key)
		case 9:
			// a new one in its place
			c.con.Close()
			vrt.Assert("C25.disconnecting-destroys-nothing", e.sess.closed == 0)
			*c = specCon{}
			c.con, c.sock = e.connect(0, false)
		}
		vrt.Assert("C20.writer-used-properly", !c.sock.misused)
		w.check()
	}
}

// specAll runs f in n goroutines at once and waits for them.
func specAll(n int, f func(i int)) (done bool) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	all := make(chan bool)
	go func() {
		wg.Wait()
		close(all)
	}()
	select {
	case <-all:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}

// prove_C11_C12_C13_C25_Race: connections enter and leave sessions at once (native only).
func prove_C11_C12_C13_C25_Race() {
	if !vrt.Native() {
		return
	}
	seed := vrt.Int("seed", 0, 1<<30)
	for t := time.Now(); time.Since(t) < 300*time.Millisecond; seed++ {
		specRaceSessionsRound(1+seed%3, 1+seed/3%4)
	}
}

func specRaceSessionsRound(max, more int) {
	n := max + more
	e := specServer(Enabled, uint(max))
	var lock sync.Mutex
	closed := 0
	e.sess.onClosed = func() {
		lock.Lock()
		closed++
		lock.Unlock()
	}
	var cons []*connection
	for i := 0; i < n; i++ {
		c, _ := e.connect(0, false)
		cons = append(cons, c)
	}
	made := 0
	e.srv.sessionManager = &specRaceSessions{e.sess, &lock}
	vrt.Assert("C19.finished", specAll(n, func(i int) {
		if cons[i].CreateSession(nil) == nil {
			lock.Lock()
			made++
			lock.Unlock()
		}
	}))
	l := e.srv.SessionConnections("key")
	vrt.Assert("C13.limit-kept", len(l) == max && made == max)
	vrt.Assert("C11.list-length", len(l) == made)
	vrt.Assert("C19.finished", specAll(n, func(i int) { cons[i].CloseSession() }))
	vrt.Assert("C25.destroyed-once-by-last", closed == 1)
	vrt.Assert("C11.session-removed", e.srv.ActiveSessionsNum() == 0)
}

type specRaceSessions struct {
	*specSessions
	lock *sync.Mutex
}

func (m *specRaceSessions) OnSessionCreated(c Connection) error { return nil }
func (m *specRaceSessions) OnSessionClosed(key string) error {
	m.onClosed()
	return nil
}

// specRaceSock is a socket goroutines share.
type specRaceSock struct {
	specSock
	lock   sync.Mutex
	closes int32
	sent   int32
}

func (s *specRaceSock) GetWriter() (io.WriteCloser, error) {
	s.lock.Lock()
	return &specRaceWriter{s}, nil
}
func (s *specRaceSock) IsConnected() bool { return atomic.LoadInt32(&s.closes) < 1 }
func (s *specRaceSock) Close() error {
	atomic.AddInt32(&s.closes, 1)
	return nil
}

type specRaceWriter struct{ s *specRaceSock }

func (w *specRaceWriter) Write(p []byte) (int, error) { return len(p), nil }
func (w *specRaceWriter) Close() error {
	atomic.AddInt32(&w.s.sent, 1)
	w.s.lock.Unlock()
	return nil
}

// prove_C14_C16_C17_C18_Race: handlers run, connections close and the server shuts down at once
// (native only).
func prove_C14_C16_C17_C18_Race() {
	if !vrt.Native() {
		return
	}
	seed := vrt.Int("seed", 0, 1<<30)
	for t := time.Now(); time.Since(t) < 300*time.Millisecond; seed++ {
		specRaceHandlersRound(1+seed%3, 1+seed/3%3, seed/9%2 == 0, []int{1, 1, 1, 6}[seed/18%4])
	}
}

func specRaceHandlersRound(n, limit int, closes bool, each int) {
	e := specServer(Enabled, 0)
	impl := &specRaceImpl{socks: map[Connection]*specRaceSock{}, running: map[Connection]int{}, limit: limit}
	e.srv.impl = impl
	var cons []*connection
	for i := 0; i < n; i++ {
		s := &specRaceSock{}
		c := newConnection(s, e.srv, ConnectionOptions{ConcurrencyLimit: limit})
		impl.socks[c] = s
		cons = append(cons, c)
	}
	down, shutdowns := -1, -1
	// one goroutine reads the messages of a connection
	vrt.Assert("C16.shutdown-returns", specAll(n+2, func(i int) {
		switch {
		case i == n:
			e.srv.Shutdown()
			impl.lock.Lock()
			down, shutdowns = impl.busy, e.trans.shutdowns
			impl.lock.Unlock()
		case i > n:
			if closes {
				cons[0].Close()
			}
		default:
			for j := 0; j < each; j++ {
				f := append([]byte{message.MsgRequestBinary}, specIdent...)
				msg := message.NewMessage(1024)
				if _, err := msg.ReadBytes(append(append(f, 1, 'n'), make([]byte, each)...)); err == nil {
					e.srv.handleMessage(cons[i], msg)
				}
			}
		}
	}))
	counted := func() (n int) {
		e.srv.opsLock.Lock()
		n = int(e.srv.currentOps)
		e.srv.opsLock.Unlock()
		for _, c := range cons {
			c.stateLock.Lock()
			n += int(c.tasks)
			c.stateLock.Unlock()
		}
		return
	}
	for try := 0; try < 5000 && counted() > 0; try++ {
		time.Sleep(time.Millisecond)
	}
	vrt.Assert("C16.handler-no-longer-counted", counted() == 0)
	impl.lock.Lock()
	defer impl.lock.Unlock()
	vrt.Assert("C16.shutdown-waits-for-handlers", down == 0)
	vrt.Assert("C16.transport-shut-down-once", shutdowns == 1 && e.trans.shutdowns == 1)
	vrt.Assert("C17.handler-on-open-connection", impl.late == 0)
	vrt.Assert("C18.limit-kept", impl.above == 0)
	for i, c := range cons {
		s := impl.socks[c]
		if i == 0 && closes {
			for try := 0; try < 5000 && s.IsConnected(); try++ {
				time.Sleep(time.Millisecond)
			}
			vrt.Assert("C17.disconnected-once-when-idle", atomic.LoadInt32(&s.closes) == 1)
			vrt.Assert("C14.answered-at-most-once", int(atomic.LoadInt32(&s.sent)) <= each)
		} else {
			vrt.Assert("C17.not-disconnected-unasked", atomic.LoadInt32(&s.closes) == 0)
			vrt.Assert("C14.answered-once", int(atomic.LoadInt32(&s.sent)) == each)
		}
	}
}

type specRaceImpl struct {
	specImpl
	lock              sync.Mutex
	socks             map[Connection]*specRaceSock
	running           map[Connection]int
	busy, late, above int
	limit             int
}

func (i *specRaceImpl) OnRequest(ctx context.Context, c Connection, m Message) (Payload, error) {
	i.lock.Lock()
	i.busy++
	if i.running[c]++; i.running[c] > i.limit {
		i.above++
	}
	i.lock.Unlock()
	if each := len(m.Payload()); each > 1 {
		time.Sleep(10 * time.Microsecond)
	}
	i.lock.Lock()
	if !i.socks[c].IsConnected() {
		i.late++
	}
	i.running[c]--
	i.busy--
	i.lock.Unlock()
	return Payload{}, nil
}
