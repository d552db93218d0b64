package webwire

// Contracts of a connection's state and tasks (C17) and of its session (C12).

import "github.com/qbeon/webwire-go/vrt"

// ---- state and tasks ----
//
// Every running handler owns one task: a thread's own share of the counter is what it registered
// and did not deregister yet.

const vguard_connection_stateLock = "isActive tasks"
const vprop_connection_stateLock = "C17"

func vinv_connection_stateLock(c *connection) bool { return c.tasks >= 0 }

// a connection marked for closing stays so and starts no task
func vtrans_connection_stateLock(old, c *connection) bool {
	return old.isActive || !c.isActive && c.tasks <= old.tasks
}

// the share of this thread is in the counter; fewer than 2^30 handlers run at once
func vrely_connection_stateLock(c *connection) bool {
	return int(c.tasks) >= vrt.Own(&c.stateLock) && c.tasks < 1<<30
}

func vown_connection_stateLock(old, c *connection) int { return int(c.tasks) - int(old.tasks) }

// spEnded: marked for closing and idle. This state is never left and entered once (C17 transition),
// so the critical section that enters it is the only one.
func spEnded(c *connection) bool { return !c.isActive && c.tasks < 1 }

// specDisconnected: the socket was closed exactly if this thread's section entered the end state.
func specDisconnected(c *connection, s *specSock) bool {
	a, b := vrt.Entry(&c.stateLock, c), vrt.Exit(&c.stateLock, c)
	made := 0
	if !spEnded(a) && spEnded(b) {
		made = 1
	}
	return s.closes == made
}

func prove_C17_Close() {
	vrt.Expect("closed")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(vrt.Int("limit", -1, 8), true)
	e.share(con)
	con.Close()
	vrt.Assert("C17.disconnected-once-when-idle", specDisconnected(con, sock))
	if sock.closes > 0 {
		vrt.Cover("closed")
	}
	vrt.Assert("C17.marked", !vrt.Exit(&con.stateLock, con).isActive)
	vrt.Assert("C17.tasks-unchanged", vrt.Own(&con.stateLock) == 0)
	vrt.Assert("C25.not-destroyed-by-disconnect", e.sess.closed == 0)
}

func prove_C17_RegisterTask() {
	vrt.Expect("registered")
	vrt.Expect("refused")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(vrt.Int("limit", -1, 8), true)
	e.share(con)
	ok := con.registerTask()
	a := vrt.Entry(&con.stateLock, con)
	vrt.Assert("C17.registered-if-active", ok == a.isActive)
	if ok {
		vrt.Cover("registered")
		vrt.Assert("C17.counted", vrt.Own(&con.stateLock) == 1)
	} else {
		vrt.Cover("refused")
		vrt.Assert("C17.not-counted", vrt.Own(&con.stateLock) == 0)
	}
	vrt.Assert("C17.no-disconnect", sock.closes == 0)
}

func prove_C17_DeregisterTask() {
	vrt.Expect("last")
	vrt.Expect("not last")
	e := specServer(Enabled, specMaxConns())
	con, sock := e.connect(vrt.Int("limit", -1, 8), true)
	e.share(con)
	vrt.SetOwn(&con.stateLock, 1)
	con.deregisterTask()
	vrt.Assert("C17.disconnected-once-when-idle", specDisconnected(con, sock))
	vrt.Assert("C17.given-back", vrt.Own(&con.stateLock) == 0)
	vrt.Assert("C25.not-destroyed-by-disconnect", e.sess.closed == 0)
	if sock.closes > 0 {
		vrt.Cover("last")
	} else {
		vrt.Cover("not last")
	}
}

// prove_C17_Scenario: tasks and closings of one connection in any order (replayed natively).
func prove_C17_Scenario() {
	e := specServer(Enabled, 0)
	con, sock := e.connect(0, true)
	active, tasks := true, 0
	for step := 0; step < 4; step++ {
		switch vrt.Int("op", 0, 2) {
		case 0:
			ok := con.registerTask()
			vrt.Assert("C17.registered-if-active", ok == active)
			if ok {
				tasks++
			}
		case 1:
			if tasks > 0 {
				tasks--
				con.deregisterTask()
			}
		case 2:
			active = false
			con.Close()
		}
		n := 0
		if !active && tasks < 1 {
			n = 1
		}
		vrt.Assert("C17.disconnected-once-when-idle", sock.closes == n)
		vrt.Assert("C17.active-until-closed", con.IsActive() == active)
	}
}
