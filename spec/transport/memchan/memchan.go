package memchan

// Contracts of the in-memory transport (C24): a frame is handed over complete or not at all, and the
// writer is free again afterwards whatever happens.

import (
	"io"
	"time"

	wwr "github.com/qbeon/webwire-go"
	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// ---- the outbound buffer, one step from any state ----

type specFlush struct {
	n    int
	data []byte
	err  error
}

func (f *specFlush) flush(data []byte) error {
	f.n++
	f.data = append([]byte{}, data...)
	return f.err
}

func specBuffer(f *specFlush) *Buffer {
	mem := vrt.Bytes("mem")
	vrt.Assume(len(mem) > 0)
	b := NewBuffer(mem, f.flush)
	b.len = vrt.Int("len", 0, 1<<30)
	b.overflown = vrt.Bool("overflown")
	vrt.Assume(b.len <= len(mem) && (!b.overflown || b.len == 0))
	return &b
}

// Writing appends to what was written before, or fails for good.
func prove_C24_BufferWrite() {
	vrt.PanicProp("C24")
	vrt.Expect("fits")
	vrt.Expect("overflow")
	b := specBuffer(&specFlush{})
	size, had, lost := len(b.buf), b.len, b.overflown
	before := append([]byte{}, b.buf[:had]...)
	p := vrt.Bytes("p")
	in := append([]byte{}, p...)
	n, err := b.Write(p)
	if !lost && had+len(in) <= size {
		vrt.Cover("fits")
		vrt.Assert("C24.write-appends", err == nil && n == len(in) && b.len == had+len(in) && !b.overflown)
		vrt.Assert("C24.write-appends", vrt.BytesEq(b.buf[:b.len], append(before, in...)))
	} else {
		vrt.Cover("overflow")
		vrt.Assert("C24.overflow-reported", vrt.IsType[wwr.ErrBufferOverflow](err) && n == 0)
		vrt.Assert("C24.overflow-remembered", b.overflown && b.len == 0)
	}
	vrt.Assert("C24.write-keeps-buffer", len(b.buf) == size)
	vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
}

// Closing hands over exactly what was written, once, and leaves an empty buffer.
func prove_C24_BufferClose() {
	vrt.PanicProp("C24")
	vrt.Expect("delivered")
	vrt.Expect("nothing written")
	vrt.Expect("overflow")
	f := &specFlush{err: vrt.Err("flush")}
	b := specBuffer(f)
	had, lost := append([]byte{}, b.buf[:b.len]...), b.overflown
	err := b.Close()
	// the callback ends the message in any case
	vrt.Assert("C24.close-ends-message", f.n == 1)
	vrt.Assert("C24.close-hands-over-all", vrt.BytesEq(f.data, had))
	if lost {
		vrt.Cover("overflow")
		vrt.Assert("C24.overflow-reported", err != nil)
	} else if len(had) == 0 {
		vrt.Cover("nothing written")
		vrt.Assert("C24.empty-reported", err != nil)
	} else {
		vrt.Cover("delivered")
		vrt.Assert("C24.close-reports-flush", err == f.err)
	}
	vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
	// the next message starts from scratch
	p := vrt.Bytes("p")
	if len(p) > 0 && len(p) <= len(b.buf) {
		in := append([]byte{}, p...)
		_, e1 := b.Write(p)
		e2 := b.Close()
		vrt.Assert("C24.next-message", e1 == nil && e2 == f.err && f.n == 2 && vrt.BytesEq(f.data, in))
	}
}

// ---- a socket among concurrently running others ----

// The two sides of a socket pair share the connection state.
const vguard_link_lock = "connected closed chan:closed"
const vprop_link_lock = "C24"

func vinv_link_lock(l *link) bool {
	return !l.connected || l.closed != nil && !vrt.ChanClosed(l.closed)
}

// Others open and close connections; whoever closes one notifies those who wait.
func vguar_link_lock(old, new *link) bool {
	return !old.connected || new.closed == old.closed && new.connected == !vrt.ChanClosed(new.closed)
}

const vguard_Transport_connectionsLock = "connections"
const vprop_Transport_connectionsLock = "C24"

// The frames of a socket's peer are handed over through reader, each is confirmed through readerErr.
const vchan_Socket_reader = "C24"
const vchan_Socket_readerErr = "C24"

type specWireT struct {
	sent, acked int
	data        []byte
	waiting     bool // handed over, not confirmed yet: the peer will confirm
	owed        bool // taken over, not confirmed yet: the peer waits
	got         int
	ackErr      error
	frame       []byte
	msg         *message.Message
}

var specWire *specWireT

// this thread hands data over to the reader of r
func vsend_Socket_reader(r *Socket, data []byte) {
	w := specWire
	vrt.Assert("C24.handed-over-by-writer", vrt.HoldsLock(r.remote.writerLock))
	vrt.Assert("C24.handed-over-once", w.sent == 0)
	w.sent++
	w.data = append([]byte{}, data...)
	w.waiting = true
}

// the reader of r confirms: it took the data over, so it does
func vcanrecv_Socket_readerErr(r *Socket) bool { return specWire.waiting }

func vrecv_Socket_readerErr(r *Socket, err error) {
	w := specWire
	vrt.Assert("C24.writer-held-until-read", vrt.HoldsLock(r.remote.writerLock))
	w.waiting = false
	w.acked++
	w.ackErr = err
}

// this thread takes a frame over
func vrecv_Socket_reader(r *Socket, data []byte) {
	w := specWire
	vrt.Assume(len(data) > 0)
	vrt.Assert("C24.confirms-before-next", !w.owed)
	w.got++
	w.owed = true
	w.frame = append([]byte{}, data...)
}

// the writer of the frame taken over waits for the confirmation
func vcansend_Socket_readerErr(r *Socket) bool { return specWire.owed }

func vsend_Socket_readerErr(r *Socket, err error) {
	w := specWire
	w.owed = false
	w.acked++
	// from now on the writer may overwrite its buffer, the message must be complete
	if w.msg != nil && err == nil {
		vrt.Assert("C24.confirmed-when-read", specFrameRead(w.msg, w.frame))
	}
}

// specFrameRead: msg holds the frame, in memory of its own, unless it doesn't fit.
func specFrameRead(msg *message.Message, frame []byte) bool {
	return len(frame) > len(msg.MsgBuffer.Bytes()) || vrt.BytesEq(msg.MsgBuffer.Data(), frame)
}

// specPair: a socket pair in any connection state, used by any number of goroutines.
func specPair() (sock *Socket, srv *Transport) {
	srv = &Transport{}
	size := vrt.Int("size", 1, 1<<20)
	if vrt.Native() {
		size = size%64 + 1
	}
	srv.Initialize(
		wwr.ServerOptions{MessageBufferSize: uint32(size)},
		func() bool { return false },
		func(wwr.ConnectionOptions, wwr.Socket) {},
	)
	s, c := NewEntangledSockets(srv)
	specWire = &specWireT{}
	if vrt.Native() {
		if vrt.Bool("connected") {
			c.Dial(time.Time{})
		}
	} else {
		vrt.Share(s)
		vrt.Share(c)
		vrt.Share(s.link)
		vrt.Share(srv)
	}
	if vrt.Bool("server side") {
		return s, srv
	}
	return c, srv
}

// specReader natively plays the peer: it reads one frame.
func specReader(sock *Socket) (finish func()) {
	if !vrt.Native() {
		return func() {}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		msg := message.NewMessage(1 << 10)
		sock.remote.Read(msg, time.Now().Add(time.Second))
		if frame := msg.MsgBuffer.Data(); len(frame) > 0 {
			specWire.sent++
			specWire.data = append([]byte{}, frame...)
			specWire.acked++
		}
	}()
	return func() {
		sock.Close()
		<-done
	}
}

func specWriteAll(w io.Writer, parts ...[]byte) (all []byte) {
	for _, p := range parts {
		all = append(all, p...)
		w.Write(p)
	}
	return all
}

// One message: whatever is written and whatever the others do, all of it is handed over or nothing is,
// and the socket can be written to again.
func prove_C24_Frame() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("disconnected")
	vrt.Expect("delivered")
	vrt.Expect("refused")
	sock, _ := specPair()
	w, err := sock.GetWriter()
	if err != nil {
		vrt.Cover("disconnected")
		vrt.Assert("C24.writer-freed", w == nil && vrt.LocksHeld() == 0)
		return
	}
	vrt.Assert("C24.one-writer", vrt.Native() || vrt.HoldsLock(sock.writerLock))
	finish := specReader(sock)
	var all []byte
	switch vrt.Int("writes", 0, 3) {
	case 1:
		all = specWriteAll(w, vrt.Bytes("p"))
	case 2:
		all = specWriteAll(w, vrt.Bytes("p"), vrt.Bytes("q"))
	case 3:
		all = specWriteAll(w, vrt.Bytes("p"), vrt.Bytes("q"), vrt.Bytes("r"))
	}
	cerr := w.Close()
	finish()
	fits := len(all) > 0 && len(all) <= len(sock.outboundBuffer.buf)
	wire := specWire
	vrt.Assert("C24.complete-or-nothing", wire.sent == 0 || wire.sent == 1 && fits && vrt.BytesEq(wire.data, all))
	if cerr == nil {
		vrt.Cover("delivered")
		vrt.Assert("C24.success-means-delivered", wire.sent == 1 && wire.acked == 1)
	} else {
		vrt.Cover("refused")
		vrt.Assert("C24.failure-means-not-read", wire.sent == 0 || wire.ackErr != nil)
	}
	if vrt.Native() {
		vrt.Assert("C24.writer-freed", sock.writerLock.TryLock() && sock.outboundBuffer.lock.TryLock())
	} else {
		vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
	}
}

// ---- reading ----

// Each frame taken over is confirmed exactly once, after it was read completely into the message.
func prove_C24_Read() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("closed")
	vrt.Expect("read")
	sock, _ := specPair()
	msg := message.NewMessage(uint32(vrt.Int("msg size", 32, 64)))
	specWire.msg = msg
	var deadline time.Time
	if vrt.Bool("deadline") {
		deadline = time.Now()
	}
	if vrt.Native() && deadline.IsZero() {
		sock.Close()
	}
	err := sock.Read(msg, deadline)
	w := specWire
	vrt.Assert("C24.every-frame-confirmed", !w.owed && w.acked == w.got)
	vrt.Assert("C24.one-frame-per-read", w.got <= 1)
	if w.got == 0 {
		vrt.Cover("closed")
		vrt.Assert("C24.failed-read-reported", err != nil)
	} else {
		vrt.Cover("read")
		vrt.Assert("C24.read-success", err != nil || specFrameRead(msg, w.frame))
	}
	vrt.Assert("C24.reader-freed", vrt.LocksHeld() == 0)
}

// ---- connecting and disconnecting ----

// Closing ends the connection once, and leaves the socket to others.
func prove_C24_Close() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("closed")
	vrt.Expect("was closed")
	sock, srv := specPair()
	err := sock.Close()
	vrt.Assert("C24.close-succeeds", err == nil)
	vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
	if vrt.Native() {
		vrt.Assert("C24.closed", !sock.IsConnected() && !sock.remote.IsConnected())
		return
	}
	a, b := vrt.Entry(&sock.link.lock, sock.link), vrt.Exit(&sock.link.lock, sock.link)
	vrt.Assert("C24.closed", !b.connected)
	if a.connected {
		vrt.Cover("closed")
		vrt.Assert("C24.closed", vrt.Closes() == 1)
		server := sock
		if sock.sockType == SocketClient {
			server = sock.remote
		}
		t := vrt.Exit(srv.connectionsLock, srv)
		_, in := t.connections[server]
		vrt.Assert("C24.closed-unregistered", !in)
	} else {
		vrt.Cover("was closed")
		vrt.Assert("C24.close-once", vrt.Closes() == 0)
	}
}

// A connection exists only if the server accepted it.
func prove_C24_Dial() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("accepted")
	vrt.Expect("refused")
	vrt.Expect("shutting down")
	vrt.Expect("reconnected")
	accept, shutdown := vrt.Bool("accept"), vrt.Bool("shutdown")
	srv := &Transport{OnBeforeCreation: func() wwr.ConnectionOptions {
		o := wwr.ConnectionOptions{}
		if !accept {
			o.Connection = wwr.Refuse
		}
		return o
	}}
	started := 0
	srv.Initialize(
		wwr.ServerOptions{MessageBufferSize: 32},
		func() bool { return shutdown },
		func(o wwr.ConnectionOptions, s wwr.Socket) { started++ },
	)
	server, client := NewEntangledSockets(srv)
	err := client.Dial(time.Time{})
	vrt.RunSpawned()
	_, in := srv.connections[server]
	if !accept || shutdown {
		if accept {
			vrt.Cover("shutting down")
		} else {
			vrt.Cover("refused")
		}
		vrt.Assert("C24.refused-not-connected", err != nil && !client.IsConnected() && !server.IsConnected() && !in && started == 0)
		_, werr := client.GetWriter()
		vrt.Assert("C24.refused-not-connected", werr != nil)
	} else {
		vrt.Cover("accepted")
		vrt.Assert("C24.accepted-connected", err == nil && client.IsConnected() && server.IsConnected() && in && started == 1)
		vrt.Assert("C24.dial-once", client.Dial(time.Time{}) != nil && client.IsConnected())
		vrt.Assert("C24.connection-usable", vinv_link_lock(client.link))
		client.Close()
		vrt.Assert("C24.closed", !client.IsConnected() && !server.IsConnected())
		if client.Dial(time.Time{}) == nil {
			vrt.Cover("reconnected")
			vrt.Assert("C24.connection-usable", client.IsConnected() && vinv_link_lock(client.link))
		}
	}
	vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
}

// ---- the server side ----

// specListed: the connections of the server are those of its sockets.
func specListed(srv *Transport) bool {
	_, none := srv.connections[nil]
	return !none && vrt.ForallRefs(func(s *Socket) bool {
		c, ok := srv.connections[s]
		return !ok || s.link != nil && s.server == srv && s.sockType == SocketServer && c != nil && s.remote == c
	})
}

func vinv_Transport_connectionsLock(srv *Transport) bool {
	return srv.connections != nil && specListed(srv)
}

// Whatever connects and disconnects meanwhile, shutting down ends, and leaves the list of connections to others.
func prove_C19_C24_Shutdown() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("down")
	_, srv := specPair()
	err := srv.Shutdown()
	vrt.Assert("C24.shutdown-succeeds", err == nil)
	if vrt.Native() {
		vrt.Assert("C24.shutdown-frees-list", srv.connectionsLock.TryLock())
	}
	vrt.Cover("down")
}

// Connecting, from any state and among others.
func prove_C19_C24_Connect() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("connected")
	vrt.Expect("refused")
	sock, srv := specPair()
	if sock.sockType != SocketClient {
		sock = sock.remote
	}
	err := sock.Dial(time.Time{})
	if vrt.Native() {
		return
	}
	if err != nil {
		vrt.Cover("refused")
		return
	}
	vrt.Cover("connected")
	a, b := vrt.Entry(&sock.link.lock, sock.link), vrt.Exit(&sock.link.lock, sock.link)
	vrt.Assert("C24.accepted-connected", !a.connected && b.connected)
	t := vrt.Exit(srv.connectionsLock, srv)
	c, in := t.connections[sock.remote]
	vrt.Assert("C24.accepted-connected", in && c == sock)
}

// Shutting down disconnects everybody for good.
func prove_C24_ShutdownAll() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Unroll(4)
	vrt.Expect("down")
	srv := &Transport{}
	srv.Initialize(
		wwr.ServerOptions{MessageBufferSize: 32},
		func() bool { return false },
		func(o wwr.ConnectionOptions, s wwr.Socket) {},
	)
	var socks []*Socket
	for i := 0; i < 2; i++ {
		s, c := NewEntangledSockets(srv)
		socks = append(socks, s, c)
		if vrt.Bool("connected") {
			c.Dial(time.Time{})
		}
	}
	srv.Shutdown()
	vrt.Cover("down")
	for i := 0; i < 4; i++ {
		vrt.Assert("C24.shutdown-disconnects", !socks[i].IsConnected())
	}
	vrt.Assert("C24.shutdown-ends-serving", srv.Serve() != nil)
	vrt.Assert("C24.shutdown-refuses", socks[1].Dial(time.Time{}) != nil && !socks[1].IsConnected())
	vrt.Assert("C24.shutdown-once", srv.Shutdown() == nil)
	vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
}

// A socket without a server is never connected, and can be used like any disconnected one.
func prove_C24_Unreachable() {
	vrt.PanicProp("C24")
	vrt.BlockProp("C24")
	vrt.Expect("end")
	s, err := (&ClientTransport{}).NewSocket(0)
	sock, ok := s.(*Socket)
	vrt.Assert("C24.unreachable-socket", err == nil && ok)
	if !ok {
		return
	}
	for i := 0; i < 2; i++ {
		switch vrt.Int("operation", 0, 4) {
		case 0:
			vrt.Assert("C24.unreachable-refused", sock.Dial(time.Time{}) != nil)
		case 1:
			_, err := sock.GetWriter()
			vrt.Assert("C24.unreachable-refused", err != nil)
		case 2:
			vrt.Assert("C24.unreachable-closed", sock.Close() == nil)
		case 3:
			msg := message.NewMessage(32)
			rerr := sock.Read(msg, time.Time{})
			vrt.Assert("C24.unreachable-refused", rerr != nil && rerr.IsCloseErr())
		case 4:
			sock.RemoteAddr()
		}
		vrt.Assert("C24.unreachable-refused", !sock.IsConnected())
		vrt.Assert("C24.writer-freed", vrt.LocksHeld() == 0)
	}
	vrt.Cover("end")
}
