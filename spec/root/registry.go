package webwire

// Contracts of the session registry (C11, C13).

import "github.com/qbeon/webwire-go/vrt"

// ---- the registry under its lock ----

const vguard_sessionRegistry_lock = "registry map:map[string]map[*ww.connection]struct{} map:map[*ww.connection]struct{}"
const vprop_sessionRegistry_lock = "C11"

// no empty sessions, no session above the limit, no set shared by two sessions
func vinv_sessionRegistry_lock(r *sessionRegistry) bool {
	return r.registry != nil && vrt.ForallKeys(r.registry, r.registry, func(k string) bool {
		set, ok := r.registry[k]
		return !ok || set != nil && len(set) >= 1 && (r.maxConns == 0 || uint(len(set)) <= r.maxConns)
	}) && vrt.ForallKeys(r.registry, r.registry, func(k string) bool {
		return vrt.ForallKeys(r.registry, r.registry, func(l string) bool {
			a, ok1 := r.registry[k]
			b, ok2 := r.registry[l]
			return !ok1 || !ok2 || k == l || !vrt.SameRef(a, b)
		})
	})
}

// others leave alone the registration of a connection whose session lock is held by this thread
func vstep_sessionRegistry_lock(old, r *sessionRegistry) bool {
	return vrt.ForallRefs(func(c *connection) bool {
		return !vrt.HoldsLock(&c.sessionLock) || vrt.ForallKeys(old.registry, r.registry, func(k string) bool {
			return spIn(old, k, c) == spIn(r, k, c)
		})
	})
}

// ... and the other way around
const vguarprop_sessionRegistry_lock = "C12"

func vguar_sessionRegistry_lock(old, r *sessionRegistry) bool {
	return vrt.ForallRefs(func(c *connection) bool {
		return vrt.HoldsLock(&c.sessionLock) || vrt.ForallKeys(old.registry, r.registry, func(k string) bool {
			return spIn(old, k, c) == spIn(r, k, c)
		})
	})
}

func spIn(r *sessionRegistry, k string, c *connection) bool {
	_, ok := r.registry[k][c]
	return ok
}

// specOnlyChanged: the membership of nobody but con in key changed between the two states.
func specOnlyChanged(a, b *sessionRegistry, key string, con *connection) bool {
	return vrt.ForallRefs(func(c *connection) bool {
		return c == con || spIn(a, key, c) == spIn(b, key, c)
	}) && vrt.ForallKeys(a.registry, b.registry, func(k string) bool {
		m, ok1 := a.registry[k]
		n, ok2 := b.registry[k]
		return k == key || ok1 == ok2 && len(m) == len(n)
	}) && vrt.ForallKeys(a.registry, b.registry, func(k string) bool {
		return k == key || vrt.ForallRefs(func(c *connection) bool {
			return spIn(a, k, c) == spIn(b, k, c)
		})
	})
}

func specRegistry(destroyed *int, destroyedKey *string) *sessionRegistry {
	return newSessionRegistry(specMaxConns(), func(k string) {
		*destroyed++
		*destroyedKey = k
	})
}

func specRegCon(key string) *connection {
	c := newConnection(nil, nil, ConnectionOptions{})
	c.session = &Session{Key: key}
	return c
}

// prove_C11_C13_Register: any state of the registry.
func prove_C11_C13_Register() {
	vrt.Expect("registered")
	vrt.Expect("refused")
	e := specServer(Enabled, specMaxConns())
	con, _ := e.connect(0, false)
	r := e.srv.sessionRegistry
	e.share(con)
	key := vrt.String("key")
	con.sessionLock.Lock()
	again := con.session != nil
	if again {
		key = con.session.Key
	} else {
		con.session = &Session{Key: key}
	}
	err := r.register(con)
	if err != nil && !again {
		con.session = nil
	}
	con.sessionLock.Unlock()
	a, b := vrt.Entry(r.lock, r), vrt.Exit(r.lock, r)
	if err != nil {
		vrt.Cover("refused")
		vrt.Assert("C13.refused-only-at-limit", r.maxConns > 0 && uint(len(a.registry[key])) == r.maxConns)
		vrt.Assert("C13.refused-changes-nothing", specOnlyChanged(a, b, key, con) && spIn(a, key, con) == spIn(b, key, con) &&
			len(a.registry) == len(b.registry) && len(a.registry[key]) == len(b.registry[key]))
		return
	}
	vrt.Cover("registered")
	was := 0
	if spIn(a, key, con) {
		was = 1
	}
	vrt.Assert("C11.registered", spIn(b, key, con))
	vrt.Assert("C11.counted", len(b.registry[key]) == len(a.registry[key])+1-was)
	vrt.Assert("C11.others-unaffected", specOnlyChanged(a, b, key, con))
	vrt.Assert("C13.limit-kept", r.maxConns == 0 || uint(len(b.registry[key])) <= r.maxConns)
	fresh := 0
	if len(a.registry[key]) == 0 {
		fresh = 1
	}
	vrt.Assert("C11.sessions-counted", len(b.registry) == len(a.registry)+fresh)
	vrt.Assert("C11.nothing-destroyed", e.sess.closed == 0)
}

func prove_C11_C25_Deregister() {
	vrt.Expect("not registered")
	vrt.Expect("last")
	vrt.Expect("others left")
	e := specServer(Enabled, specMaxConns())
	con, _ := e.connect(0, false)
	r := e.srv.sessionRegistry
	e.share(con)
	destroy := vrt.Bool("destroy")
	con.sessionLock.Lock()
	vrt.Assume(con.session != nil)
	key, old := con.session.Key, con.session
	if vrt.Bool("other") {
		key = vrt.String("key")
		con.session = &Session{Key: key}
	}
	n := r.deregister(con, destroy)
	if n < 0 {
		con.session = old
	} else {
		con.session = nil
	}
	con.sessionLock.Unlock()
	a, b := vrt.Entry(r.lock, r), vrt.Exit(r.lock, r)
	vrt.Assert("C11.others-unaffected", specOnlyChanged(a, b, key, con))
	vrt.Assert("C11.removed", !spIn(b, key, con))
	if !spIn(a, key, con) {
		vrt.Cover("not registered")
		vrt.Assert("C11.unregistered-reported", n == -1)
		vrt.Assert("C11.unregistered-no-effect", len(a.registry) == len(b.registry) && len(a.registry[key]) == len(b.registry[key]) && e.sess.closed == 0)
		return
	}
	vrt.Assert("C11.left-reported", n == len(a.registry[key])-1)
	_, exists := b.registry[key]
	if n == 0 {
		vrt.Cover("last")
		vrt.Assert("C11.session-removed-with-last", !exists && len(b.registry) == len(a.registry)-1)
		vrt.Assert("C25.destroyed-with-last-if-asked", destroy == (e.sess.closed == 1) && (e.sess.closed == 0 || e.sess.closedKey == key))
	} else {
		vrt.Cover("others left")
		vrt.Assert("C11.session-kept", exists && len(b.registry) == len(a.registry) && len(b.registry[key]) == n)
		vrt.Assert("C25.not-destroyed-while-used", e.sess.closed == 0)
	}
}

func prove_C11_DeregisterWithoutSession() {
	destroyed, dkey := 0, ""
	r := specRegistry(&destroyed, &dkey)
	con := newConnection(nil, nil, ConnectionOptions{})
	vrt.Assert("C11.unregistered-reported", r.deregister(con, vrt.Bool("destroy")) == -1 && destroyed == 0)
}

func prove_C11_Counts() {
	destroyed, dkey := 0, ""
	r := specRegistry(&destroyed, &dkey)
	key := vrt.String("key")
	vrt.Share(r)
	n := r.activeSessionsNum()
	a := vrt.Entry(r.lock, r)
	vrt.Assert("C11.active-sessions", n == len(a.registry))
	m := r.sessionConnectionsNum(key)
	b := vrt.Entry(r.lock, r)
	if _, ok := b.registry[key]; ok {
		vrt.Assert("C11.connections-of-session", m == len(b.registry[key]))
	} else {
		vrt.Assert("C11.no-session", m == -1)
	}
}

func prove_C11_List() {
	destroyed, dkey := 0, ""
	r := specRegistry(&destroyed, &dkey)
	key := vrt.String("key")
	vrt.Share(r)
	l := r.sessionConnections(key)
	b := vrt.Entry(r.lock, r)
	if _, ok := b.registry[key]; ok {
		vrt.Assert("C11.list-length", len(l) == len(b.registry[key]))
		vrt.Assert("C11.list-members", vrt.Forall(0, len(l), func(i int) bool { return l[i] != nil && spIn(b, key, l[i].(*connection)) }))
		vrt.Assert("C11.list-distinct", vrt.Forall(0, len(l), func(i int) bool {
			return vrt.Forall(i+1, len(l), func(j int) bool { return l[i] != l[j] })
		}))
	} else {
		vrt.Assert("C11.no-list", len(l) == 0)
	}
}

// prove_C11_C13_C25_Scenario: three connections and two sessions in any order (replayed natively).
func prove_C11_C13_C25_Scenario() {
	destroyed, dkey := 0, ""
	r := specRegistry(&destroyed, &dkey)
	vrt.Assume(r.maxConns <= 3)
	keys := []string{"a", "b"}
	cons := []*connection{specRegCon("a"), specRegCon("a"), specRegCon("b")}
	in := []bool{false, false, false}
	for step := 0; step < 4; step++ {
		i := vrt.Int("con", 0, 2)
		for j := 0; j < 3; j++ {
			if i == j {
				i = j
			}
		}
		c := cons[i]
		size := 0
		for j := range cons {
			if in[j] && cons[j].session.Key == c.session.Key {
				size++
			}
		}
		if vrt.Bool("register") {
			err := r.register(c)
			if !in[i] {
				vrt.Assert("C13.limit", (err != nil) == (r.maxConns > 0 && uint(size) == r.maxConns))
				in[i] = err == nil
			}
		} else {
			destroyed = 0
			destroy := vrt.Bool("destroy")
			n := r.deregister(c, destroy)
			if in[i] {
				vrt.Assert("C11.left-reported", n == size-1)
				vrt.Assert("C25.destroyed-once-with-last", destroyed == 1 == (destroy && size == 1) && destroyed <= 1 && (destroyed == 0 || dkey == c.session.Key))
			} else {
				vrt.Assert("C11.unregistered-reported", n == -1 && destroyed == 0)
			}
			in[i] = false
		}
		active := 0
		for _, k := range keys {
			n := 0
			for j := range cons {
				if in[j] && cons[j].session.Key == k {
					n++
				}
			}
			if n > 0 {
				active++
				vrt.Assert("C11.connections-of-session", r.sessionConnectionsNum(k) == n)
			} else {
				vrt.Assert("C11.no-session", r.sessionConnectionsNum(k) == -1)
			}
		}
		vrt.Assert("C11.active-sessions", r.activeSessionsNum() == active)
	}
}
