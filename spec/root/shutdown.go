package webwire

// Contracts of the operation counter and the shutdown (C16).

import (
	"context"

	"github.com/qbeon/webwire-go/message"
	"github.com/qbeon/webwire-go/vrt"
)

// ---- operations ----
//
// Every accepted handler owns one operation.

const vguard_server_opsLock = "shutdown currentOps chan:shutdownRdy"
const vprop_server_opsLock = "C16"

// the wake-up happens only after the last operation of a server that shuts down
func vinv_server_opsLock(s *server) bool {
	return !vrt.ChanClosed(s.shutdownRdy) || s.shutdown && s.currentOps == 0
}

// a shutdown is never taken back, starts no operation, and the last operation wakes it up
func vtrans_server_opsLock(old, s *server) bool {
	return (!old.shutdown || s.shutdown && s.currentOps <= old.currentOps) &&
		(!vrt.ChanClosed(vrt.Old(old, s).shutdownRdy) || vrt.ChanClosed(s.shutdownRdy)) &&
		(!old.shutdown || old.currentOps == 0 || vrt.ChanClosed(s.shutdownRdy) == (s.currentOps == 0))
}

func vrely_server_opsLock(s *server) bool {
	return int(s.currentOps) >= vrt.Own(s.opsLock) && s.currentOps < 1<<30
}

func vown_server_opsLock(old, s *server) int { return int(s.currentOps) - int(old.currentOps) }

func spRequest(t byte) bool {
	return t == message.MsgRequestBinary || t == message.MsgRequestUtf8 || t == message.MsgRequestUtf16 ||
		t == message.MsgRequestRestoreSession || t == message.MsgRequestCloseSession
}

func spSignal(t byte) bool {
	return t == message.MsgSignalBinary || t == message.MsgSignalUtf8 || t == message.MsgSignalUtf16
}

// specSlots is the number of handler slots a running handler of the connection holds.
func specSlots(con *connection) int64 {
	if con.options.ConcurrencyLimit > 1 {
		return 1
	}
	return 0
}

// prove_C16_C17_C18_RegisterHandler: with other threads at work.
func prove_C16_C17_C18_RegisterHandler() {
	vrt.Expect("accepted")
	vrt.Expect("answered")
	vrt.Expect("dropped")
	e := specServer(Enabled, 0)
	con, sock := e.connect(vrt.Int("limit", -1, 8), true)
	msg := specReceive().msg
	e.share(con)
	ok := e.srv.registerHandler(con, msg)
	if ok {
		vrt.Cover("accepted")
		vrt.Assert("C16.not-accepted-after-shutdown", !vrt.Exit(e.srv.opsLock, e.srv).shutdown)
		vrt.Assert("C16.accepted-is-counted", vrt.Own(e.srv.opsLock) == 1)
		vrt.Assert("C17.not-accepted-when-closing", vrt.Exit(&con.stateLock, con).isActive)
		vrt.Assert("C17.accepted-is-counted", vrt.Own(&con.stateLock) == 1)
		vrt.Assert("C18.accepted-holds-slot", vrt.SemHeld(con.handlerSlots) == specSlots(con))
		vrt.Assert("C14.accepted-not-answered-yet", sock.writers == 0)
		return
	}
	vrt.Assert("C16.refused-is-not-counted", vrt.Own(e.srv.opsLock) == 0)
	vrt.Assert("C17.refused-is-not-counted", vrt.Own(&con.stateLock) == 0)
	vrt.Assert("C18.refused-holds-no-slot", vrt.SemHeld(con.handlerSlots) == 0)
	if len(sock.frames) > 0 {
		vrt.Cover("answered")
		vrt.Assert("C16.shutdown-reply", vrt.Exit(e.srv.opsLock, e.srv).shutdown && spRequest(msg.MsgType) && specReply(sock, msg.MsgIdentifier[:], message.MsgReplyShutdown))
	} else if !sock.failed {
		vrt.Cover("dropped")
	}
}

// prove_C16_C17_C18_DeregisterHandler: the end of an accepted handler.
func prove_C16_C17_C18_DeregisterHandler() {
	vrt.Expect("woken")
	vrt.Expect("not woken")
	vrt.Expect("disconnected")
	e := specServer(Enabled, 0)
	con, sock := e.connect(vrt.Int("limit", -1, 8), true)
	if con.options.ConcurrencyLimit > 1 {
		con.handlerSlots.Acquire(context.Background(), 1)
	}
	e.share(con)
	vrt.SetOwn(&con.stateLock, 1)
	vrt.SetOwn(e.srv.opsLock, 1)
	e.srv.deregisterHandler(con)
	vrt.Assert("C16.given-back", vrt.Own(e.srv.opsLock) == 0)
	vrt.Assert("C17.given-back", vrt.Own(&con.stateLock) == 0)
	vrt.Assert("C18.slot-released", vrt.SemHeld(con.handlerSlots) == 0)
	vrt.Assert("C17.disconnected-once-when-idle", specDisconnected(con, sock))
	b := vrt.Exit(e.srv.opsLock, e.srv)
	vrt.Assert("C16.last-handler-wakes-up", vrt.ChanClosed(b.shutdownRdy) == (b.shutdown && b.currentOps == 0))
	if vrt.ChanClosed(b.shutdownRdy) {
		vrt.Cover("woken")
	} else {
		vrt.Cover("not woken")
	}
	if sock.closes > 0 {
		vrt.Cover("disconnected")
	}
}

// prove_C16_Shutdown: the transport is closed after the last accepted handler.
func prove_C16_Shutdown() {
	vrt.Expect("shut down")
	e := specServer(Enabled, 0)
	con, _ := e.connect(0, false)
	e.trans.err = vrt.Err("transport")
	e.trans.onShutdown = func() {
		vrt.Cover("shut down")
		e.srv.opsLock.Lock()
		vrt.Assert("C16.transport-closed-after-last-handler", e.srv.shutdown && e.srv.currentOps == 0)
		e.srv.opsLock.Unlock()
	}
	e.share(con)
	vrt.AllowBlock(true) // it waits for the handlers of others
	err := e.srv.Shutdown()
	vrt.Assert("C16.transport-closed-once", e.trans.shutdowns == 1)
	vrt.Assert("C16.transport-error-reported", (err != nil) == (e.trans.err != nil))
	vrt.Assert("C16.stays-shut-down", e.srv.isShuttingDown())
	vrt.Assert("C16.no-handlers-counted", vrt.Own(e.srv.opsLock) == 0)
}

func prove_C16_IsShuttingDown() {
	e := specServer(Enabled, 0)
	con, _ := e.connect(0, false)
	e.share(con)
	s := e.srv.isShuttingDown()
	vrt.Assert("C16.reports-shutdown", s == vrt.Entry(e.srv.opsLock, e.srv).shutdown)
	vrt.Assert("C16.transport-asks-server", e.trans.isShutting() || !s)
}

// prove_C16_C17_C18_Scenario: handlers beginning and ending on two connections, closings and a
// shutdown, in any order (replayed natively).
func prove_C16_C17_C18_Scenario() {
	vrt.Expect("shutdown")
	e := specServer(Enabled, 0)
	limit := vrt.Int("limit", 0, 3)
	con, sock := e.connect(limit, false)
	other, _ := e.connect(0, false)
	active, tasks, ops, shutdown, waits, woken := true, 0, 0, false, false, false
	for step := 0; step < 4; step++ {
		switch vrt.Int("op", 0, 5) {
		case 0:
			if limit > 1 && tasks >= limit {
				break // blocks until a slot is free
			}
			msg := specReceive().msg
			n := len(sock.frames)
			ok := e.srv.registerHandler(con, msg)
			vrt.Assert("C16.accepted-unless-shut-down", ok == (active && !shutdown))
			if ok {
				tasks++
				ops++
				vrt.Assert("C16.accepted-silently", len(sock.frames) == n)
			} else if active && spRequest(msg.MsgType) {
				vrt.Assert("C16.shutdown-reply", len(sock.frames) == n+1 && len(sock.frames[n]) == 9 && sock.frames[n][0] == message.MsgReplyShutdown && specIdentOf(sock.frames[n], msg.MsgIdentifier[:]))
			} else {
				vrt.Assert("C16.dropped-silently", len(sock.frames) == n)
			}
		case 1:
			if tasks > 0 {
				tasks--
				ops--
				e.srv.deregisterHandler(con)
			}
		case 2:
			msg := &message.Message{MsgType: message.MsgSignalBinary}
			if e.srv.registerHandler(other, msg) {
				ops++
			}
		case 3:
			active = false
			con.Close()
		case 4:
			if ops == 0 {
				vrt.Cover("shutdown")
				n := e.trans.shutdowns
				vrt.Assert("C16.idle-shutdown-succeeds", e.srv.Shutdown() == nil && e.trans.shutdowns == n+1)
				shutdown = true
			} else {
				e.srv.opsLock.Lock()
				e.srv.shutdown = true // the first half of Shutdown
				e.srv.opsLock.Unlock()
				shutdown, waits = true, true
			}
		case 5:
			if ops > tasks {
				ops--
				e.srv.deregisterHandler(other)
			}
		}
		if shutdown && waits && ops == 0 {
			woken = true
		}
		vrt.Assert("C16.last-handler-wakes-up", vrt.ChanClosed(e.srv.shutdownRdy) == woken)
		n := 0
		if !active && tasks == 0 {
			n = 1
		}
		vrt.Assert("C17.disconnected-once-when-idle", sock.closes == n)
		held := int64(0)
		if limit > 1 {
			held = int64(tasks)
		}
		vrt.Assert("C18.one-slot-per-handler", vrt.SemHeld(con.handlerSlots) == held)
		vrt.Assert("C18.limit-is-slots", limit < 2 || vrt.SemSize(con.handlerSlots) == int64(limit))
		vrt.Assert("C16.counts-handlers", int(e.srv.currentOps) == ops && e.srv.isShuttingDown() == shutdown)
	}
}

// prove_C16_ShutdownWaits: a shutdown requested while handlers run (replayed natively).
func prove_C16_ShutdownWaits() {
	vrt.BlockProp("C16")
	vrt.Expect("waited")
	e := specServer(Enabled, 0)
	con, _ := e.connect(vrt.Int("limit", -1, 2), false)
	n := vrt.Int("handlers", 0, 2)
	ended := 0
	e.trans.onShutdown = func() {
		vrt.Assert("C16.transport-closed-after-last-handler", ended == n)
		vrt.Assert("C16.requested-before", e.srv.isShuttingDown())
	}
	for i := 0; i < 2; i++ {
		if i < n {
			vrt.Assert("C16.accepted-unless-shut-down", e.srv.registerHandler(con, &message.Message{MsgType: message.MsgSignalBinary}))
		}
	}
	go func() {
		vrt.Pause()
		for i := 0; i < 2; i++ {
			if i < n {
				ended++
				e.srv.deregisterHandler(con)
			}
		}
	}()
	err := e.srv.Shutdown()
	vrt.Assert("C16.shut-down", err == nil && ended == n && e.trans.shutdowns == 1)
	if n == 2 {
		vrt.Cover("waited")
	}
}
