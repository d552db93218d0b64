package main

// Locks, guarded state, channels, goroutine-shared objects.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var tagMu sync.Mutex

// LockSpec is the contract of one mutex field, declared in the contract files.
type LockSpec struct {
	key    string // heap key of the mutex field
	typ    types.Type
	fields []string // guarded field keys
	maps   []string // guarded map kinds (any instance)
	chans  []string // guarded channel states (field keys)
	inv    *ssa.Function
	trans  *ssa.Function
	rely   *ssa.Function
	views  []string      // maps of which the holder knows a part (the invariant says which)
	own    *ssa.Function // change of this thread's own share by a critical section
	state  []string      // state owned through the lock (whole keys): others change it while the lock is free
	guar   *ssa.Function // shown of every section, not assumed of others
	guarP  string
	step   *ssa.Function // assumed of others between two critical sections
	stable *ssa.Function // what others leave alone of that state
	prop   string
}

func (ex *Exec) lockSpecOf(key string) *LockSpec { return ex.eng.locks[key] }

// mutexIdent returns the identity (field key, owner) of a mutex operand.
func (ex *Exec) mutexIdent(v Val) (string, *Term) {
	p := v.(*PtrV)
	if isFieldKey(p.loc.key) || strings.HasPrefix(p.loc.key, "glob:") {
		return p.loc.key, p.loc.a
	}
	if p.prov != nil {
		return p.prov.key, p.prov.a
	}
	return p.loc.key, p.loc.a
}

func isLocalRef(a *Term) bool { return a.isConst() && a.k.Sign() < 0 }

func (st *State) isShared(a *Term) bool { return !isLocalRef(a) || st.shared[a] }

func (ex *Exec) lockPos(in ssa.Instruction) string { return ex.pos(instrPos(in)) }

func (ex *Exec) lock(st *State, m Val, write bool, in ssa.Instruction) []*State {
	tb := ex.tb
	p := m.(*PtrV)
	key, a := ex.mutexIdent(m)
	cont := func(st *State) []*State {
		pos := ex.lockPos(in)
		for _, h := range st.locks {
			if h.key == key {
				ex.oblig(st, "C19.lock-not-already-held["+shortKey(key)+"]", "lock", pos, tb.Neq(a, h.a), "lock "+key+" taken at "+pos+" while already held since "+h.pos)
				st.assume(tb.Neq(a, h.a))
			} else {
				ex.eng.addLockEdge(h.key, key, h.pos+" -> "+pos, ex.unit)
			}
		}
		if !ex.feasiblePC(st) {
			return nil
		}
		ls := ex.lockSpecOf(key)
		held := Held{key: key, a: a, write: write, pos: pos}
		if ls != nil && st.isShared(a) && !st.sequential() {
			ex.acquire(st, ls, key, a)
			if !ex.feasiblePC(st) {
				return nil
			}
			held.snap = st.heap.clone()
		}
		if ls != nil {
			held.entry = st.heap.clone()
		}
		st.locks = append(st.locks, held)
		return states(st)
	}
	return ex.must(st, tb.Neq(p.loc.a, tb.zero), "nil-deref", instrPos(in), "lock of nil mutex", cont)
}

// acquire: the guarded state of a shared object is whatever others may have made of it.
func (ex *Exec) acquire(st *State, ls *LockSpec, key string, a *Term) {
	prev := st.last[key+"|"+fmt.Sprint(a.id)]
	pre := st.heap.clone()
	ex.havocGuarded(st, ls, a)
	obj := &PtrV{loc: Loc{key: objKey(ls.typ), a: a}}
	if ls.inv != nil {
		st.assume(ex.evalPure(st, ls.inv, []Val{obj}, nil).(*Term))
	}
	if prev != nil && ls.trans != nil {
		old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: prev}}
		st.assume(ex.evalPure(st, ls.trans, []Val{old, obj}, nil).(*Term))
	}
	if ls.step != nil {
		old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: pre}}
		st.assume(ex.evalPure(st, ls.step, []Val{old, obj}, nil).(*Term))
	}
	if ls.rely != nil {
		st.assume(ex.evalPure(st, ls.rely, []Val{obj}, nil).(*Term))
	}
}

// observe is an empty critical section: what the state guarded by a lock may be at this moment.
func (ex *Exec) observe(st *State, key string, a *Term) {
	ls := ex.lockSpecOf(key)
	if ls == nil || !st.isShared(a) || st.sequential() {
		return
	}
	for _, h := range st.locks {
		if h.key == key {
			return
		}
	}
	ex.acquire(st, ls, key, a)
	h := st.heap.clone()
	st.entry[key+"|"+fmt.Sprint(a.id)] = &section{h, h, false}
}

func shortKey(k string) string {
	return strings.TrimPrefix(strings.TrimPrefix(k, "glob:"), "ww.")
}

func (st *State) sequential() bool {
	t, ok := st.ghost["$seq"].(*Term)
	return ok && t.isConst() && t.k.Sign() != 0
}

func (ex *Exec) havocGuarded(st *State, ls *LockSpec, a *Term) {
	ver := ex.freshVer(st)
	stt := ls.typ.Underlying().(*types.Struct)
	for _, f := range ls.fields {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				ex.havocLoc(st, Loc{key: typeKey(ls.typ) + "." + f, a: a}, stt.Field(i).Type(), ver)
			}
		}
	}
	for _, m := range append(append([]string{}, ls.maps...), ls.views...) {
		for _, sfx := range []string{"#has", "#len"} {
			ex.havocKey(st, m+sfx, ver)
		}
		for k := range ex.keyT {
			if strings.HasPrefix(k, m+"#val") {
				ex.havocKey(st, k, ver)
			}
		}
	}
	for _, f := range ls.chans {
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				c := ex.load(st, Loc{key: typeKey(ls.typ) + "." + f, a: a}, stt.Field(i).Type()).(*RefV)
				ex.keyT["chan#closed"] = types.Typ[types.Bool]
				ex.noteWrite(st, "chan#closed", c.t)
				was := ex.chanClosed(st, c.t)
				defer func() { st.assume(ex.tb.Imp(was, ex.chanClosed(st, c.t))) }()
				st.heap.m["chan#closed"] = &Node{kind: NHavocObj, prev: ex.node(st, "chan#closed"), a: c.t, ver: ver}
			}
		}
	}
}

func (ex *Exec) unlock(st *State, m Val, write bool, in ssa.Instruction) []*State {
	tb := ex.tb
	p := m.(*PtrV)
	key, a := ex.mutexIdent(m)
	return ex.must(st, tb.Neq(p.loc.a, tb.zero), "nil-deref", instrPos(in), "unlock of nil mutex", func(st *State) []*State {
		pos := ex.lockPos(in)
		for j := len(st.locks) - 1; j >= 0; j-- {
			h := st.locks[j]
			if h.key != key || h.write != write {
				continue
			}
			if h.a != a {
				if !ex.implied(st, tb.Eq(a, h.a)) {
					continue
				}
			}
			ls := ex.lockSpecOf(key)
			if ls != nil && h.snap != nil && len(ls.state) > 0 {
				defer func() {
					obj := &PtrV{loc: Loc{key: objKey(ls.typ), a: a}}
					snap := st.heap.clone()
					ver := ex.freshVer(st)
					for _, k := range ls.state {
						if t := ex.keyT[k]; t != nil || strings.HasPrefix(k, "chan#") {
							if t == nil {
								ex.keyT[k] = intTT
							}
							ex.havocKey(st, k, ver)
						}
					}
					if ls.stable != nil {
						old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: snap}}
						st.assume(ex.evalPure(st, ls.stable, []Val{old, obj}, nil).(*Term))
					}
				}()
			}
			if ls != nil {
				id := key + "|" + fmt.Sprint(a.id)
				if write || st.entry[id] == nil || !st.entry[id].write {
					st.entry[id] = &section{h.entry, st.heap.clone(), write}
				}
			}
			if ls != nil && h.snap != nil {
				obj := &PtrV{loc: Loc{key: objKey(ls.typ), a: a}}
				if ls.own != nil && write {
					old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: h.snap}}
					g := ownKey(key, a)
					own := tb.Add(ghostInt(ex, st, g), ex.evalPure(st, ls.own, []Val{old, obj}, nil).(*Term))
					st.ghost[g] = own
					ex.oblig(st, ls.prop+".own-share["+shortKey(key)+"]", "lock-transition", pos, tb.Ge(own, tb.zero), "more given back than taken at "+pos)
				}
				if ls.inv != nil && write {
					ex.oblig(st, ls.prop+".lock-invariant["+shortKey(key)+"]", "lock-invariant", pos, ex.evalPure(st, ls.inv, []Val{obj}, nil).(*Term), "lock invariant of "+key+" at unlock "+pos)
				}
				if ls.trans != nil && write {
					old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: h.snap}}
					ex.oblig(st, ls.prop+".lock-transition["+shortKey(key)+"]", "lock-transition", pos, ex.evalPure(st, ls.trans, []Val{old, obj}, nil).(*Term), "transition of "+key+" at unlock "+pos)
				}
				if ls.guar != nil && write {
					old := &PtrV{loc: Loc{key: objKey(ls.typ), a: a, snap: h.snap}}
					ex.oblig(st, ls.guarP+".guarantee["+shortKey(key)+"]", "lock-transition", pos, ex.evalPure(st, ls.guar, []Val{old, obj}, nil).(*Term), "change under "+key+" at unlock "+pos)
				}
				st.last[key+"|"+fmt.Sprint(a.id)] = st.heap.clone()
			}
			st.locks = append(st.locks[:j:j], st.locks[j+1:]...)
			return states(st)
		}
		ex.oblig(st, "C19.unlock-of-held-lock["+shortKey(key)+"]", "lock", pos, tb.fls, "unlock of "+key+" at "+pos+" which is not held")
		return nil
	})
}

type section struct {
	in, out *Heap
	write   bool
}

func ownKey(key string, a *Term) string { return "$own:" + key + "|" + fmt.Sprint(a.id) }

// accessCheck: shared guarded fields are only touched with their lock held.
func (ex *Exec) accessCheck(st *State, loc Loc, write bool, pos token.Pos) {
	if len(ex.eng.guarded) == 0 && len(ex.eng.atomics) == 0 || st.noObl || ex.infer > 0 || st.top().pure {
		return
	}
	key := loc.key
	if _, ok := ex.eng.atomics[key]; ok && st.isShared(loc.a) {
		prop := ex.eng.atomicProp[key]
		if prop == "" {
			prop = "C19"
		}
		ex.oblig(st, prop+".atomic-access["+shortKey(key)+"]", "lock", ex.pos(pos), ex.tb.fls, "plain access to "+key+" at "+ex.pos(pos)+", which is shared and accessed atomically")
		return
	}
	for {
		if lk, ok := ex.eng.guarded[key]; ok {
			ex.checkHeld(st, lk, loc.a, write, shortKey(key), pos)
			return
		}
		j := strings.LastIndex(key, ".")
		if j < 0 {
			return
		}
		key = key[:j]
	}
}

func (ex *Exec) checkHeld(st *State, lk string, a *Term, write bool, what string, pos token.Pos) {
	tb := ex.tb
	if a != nil && !st.isShared(a) {
		return
	}
	g := tb.fls
	for _, h := range st.locks {
		if h.key == lk && (h.write || !write) {
			if a == nil {
				g = tb.tru
			} else {
				g = tb.Or(g, tb.Eq(h.a, a))
			}
		}
	}
	acc := "read"
	if write {
		acc = "write"
	}
	ex.oblig(st, "C19.guarded-"+acc+"["+what+"]", "lock", ex.pos(pos), g, acc+" of "+what+" at "+ex.pos(pos)+" without holding "+lk)
}

func (ex *Exec) mapAccess(st *State, m *RefV, mt *types.Map, write bool, pos token.Pos) {
	if len(ex.eng.guarded) == 0 || st.noObl || ex.infer > 0 || st.top().pure {
		return
	}
	if isLocalRef(m.t) && !st.shared[m.t] && m.prov == nil {
		return
	}
	if m.prov != nil {
		if lk, ok := ex.eng.guarded[m.prov.key]; ok {
			ex.checkHeld(st, lk, m.prov.a, write, shortKey(m.prov.key), pos)
			return
		}
	}
	if lk, ok := ex.eng.guardedMaps[mapKeyName(mt)]; ok {
		ex.checkHeld(st, lk, nil, write, mapKeyName(mt), pos)
	}
}

// frameSpec is what a contract allows its function to change.
type frameSpec struct {
	pre    *Heap
	nalloc int64
	mods   []modLoc
}

// checkFrame: everything written since the contract's Modifies clause is either named there or new.
func (ex *Exec) checkFrame(st *State) {
	tb, fs := ex.tb, st.frame
	bad := tb.fls
	where := ""
	for k, n := range st.heap.m {
		for stop := fs.pre.m[k]; n != nil && n != stop; n = n.prev {
			if n.kind == NHavocAll {
				bad, where = tb.tru, k
				break
			}
			if n.a.isConst() && n.a.k.Sign() < 0 && n.a.k.Int64() < -fs.nalloc {
				continue // allocated by the function
			}
			ok := tb.fls
			for _, m := range fs.mods {
				if m.rng {
					if k != m.loc.key && !strings.HasPrefix(k, m.loc.key+".") || n.i == nil {
						continue
					}
					hi := tb.AddC(n.i, 1)
					if n.n != nil {
						hi = tb.Add(n.i, n.n)
					}
					in := tb.And(tb.Le(m.loc.i, n.i), tb.Le(hi, tb.Add(m.loc.i, m.n)))
					if n.n != nil {
						in = tb.Or(in, tb.Le(n.n, tb.zero))
					}
					ok = tb.Or(ok, tb.And(tb.Eq(n.a, m.loc.a), in))
				} else if k == m.loc.key || strings.HasPrefix(k, m.loc.key+".") || strings.HasPrefix(k, m.loc.key+"[") {
					ok = tb.Or(ok, tb.Eq(n.a, m.loc.a))
				}
			}
			if ok != tb.tru {
				bad, where = tb.Or(bad, tb.Not(ok)), k
			}
		}
	}
	l := "frame"
	if p := propRe.FindString(ex.unit); p != "" {
		l = p + ".frame"
	}
	ex.oblig(st, l, "frame", "-", tb.Not(bad), "memory outside the Modifies clause is written: "+where)
}

func (eng *Engine) addLockEdge(from, to, pos, unit string) {
	if from == to {
		return
	}
	eng.mu.Lock()
	defer eng.mu.Unlock()
	if eng.lockEdges == nil {
		eng.lockEdges = map[[2]string]string{}
	}
	if _, ok := eng.lockEdges[[2]string{from, to}]; !ok {
		eng.lockEdges[[2]string{from, to}] = pos + " in " + unit
	}
}

// lockCycle looks for a cycle in the observed lock order.
func (eng *Engine) lockCycle() []string {
	adj := map[string][]string{}
	for e := range eng.lockEdges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	color := map[string]int{}
	var path, cyc []string
	var dfs func(n string) bool
	dfs = func(n string) bool {
		color[n] = 1
		path = append(path, n)
		for _, m := range adj[n] {
			if color[m] == 1 {
				for i, p := range path {
					if p == m {
						cyc = append(append([]string{}, path[i:]...), m)
					}
				}
				return true
			}
			if color[m] == 0 && dfs(m) {
				return true
			}
		}
		path = path[:len(path)-1]
		color[n] = 2
		return false
	}
	for n := range adj {
		if color[n] == 0 && dfs(n) {
			return cyc
		}
	}
	return nil
}

// ---- channels ----

var boolT = types.Typ[types.Bool]
var intTT = types.Typ[types.Int]

func (ex *Exec) chanClosed(st *State, c *Term) *Term {
	return ex.load(st, Loc{key: "chan#closed", a: c}, boolT).(*Term)
}
func (ex *Exec) chanInt(st *State, f string, c *Term) *Term {
	ex.keyT["chan#"+f] = intTT
	return ex.load(st, Loc{key: "chan#" + f, a: c}, intTT).(*Term)
}

func (ex *Exec) closeChan(st *State, c *RefV, call *ssa.CallCommon, in ssa.Instruction) []*State {
	tb := ex.tb
	if c.prov != nil && !st.top().pure {
		if lk, ok := ex.eng.guarded[c.prov.key+"!"]; ok {
			ex.checkHeld(st, lk, c.prov.a, true, shortKey(c.prov.key)+" (channel state)", instrPos(in))
		}
	}
	return ex.must(st, tb.Neq(c.t, tb.zero), "nil-chan", instrPos(in), "close of nil channel", func(st *State) []*State {
		return ex.must(st, tb.Not(ex.chanClosed(st, c.t)), "closed-chan", instrPos(in), "close of closed channel", func(st *State) []*State {
			ex.store(st, Loc{key: "chan#closed", a: c.t}, boolT, tb.tru)
			st.ghost["$closes"] = tb.AddC(ghostInt(ex, st, "$closes"), 1)
			return states(st)
		})
	})
}

// local tells whether a channel's state is known exactly (created in this unit and not shared).
func (st *State) localChan(c *Term) bool { return isLocalRef(c) && !st.shared[c] }

// ChanSpec is the protocol of an unbuffered channel field two threads meet at: what passing a value
// means to this thread (send, recv), and when the other side is committed to the meeting (canSend, canRecv),
// so that waiting for it without an alternative ends.
type ChanSpec struct {
	typ              types.Type
	prop             string
	send, recv       *ssa.Function // (owner, value)
	canSend, canRecv *ssa.Function // (owner) bool
}

func (ex *Exec) chanSpec(st *State, c *RefV) (*ChanSpec, Val) {
	if c.prov == nil || st.top().pure || !st.isShared(c.prov.a) {
		return nil, nil
	}
	cs := ex.eng.chans[c.prov.key]
	if cs == nil {
		return nil, nil
	}
	return cs, &PtrV{loc: Loc{key: objKey(cs.typ), a: c.prov.a}}
}

// committed: an operation on a protocol channel that has no alternative only waits for a committed peer.
func (ex *Exec) committed(st *State, cs *ChanSpec, can *ssa.Function, owner Val, key, what string) bool {
	ok := ex.tb.fls
	if can != nil {
		ok = ex.evalPure(st, can, []Val{owner}, nil).(*Term)
	}
	ex.oblig(st, cs.prop+".never-blocks["+shortKey(key)+"]", "block", what, ok, what+" waits for a peer that is not committed to it, without noticing a disconnection")
	st.assume(ok)
	return ex.feasiblePC(st)
}

func (ex *Exec) chanHook(st *State, hook *ssa.Function, owner, x Val) []*State {
	st.cutTaint = true
	if hook != nil {
		ex.pushCall(st, hook, []Val{owner, x}, nil, nil).pure = true
	}
	return states(st)
}

func (ex *Exec) send(st *State, f *Frame, i *ssa.Send) []*State {
	return ex.withVal(st, i.Chan, func(st *State, cv Val) []*State {
		x := ex.get(st, i.X)
		return ex.sendTo(st, cv.(*RefV), x, i.Chan.Type().Underlying().(*types.Chan).Elem(), i)
	})
}

func (ex *Exec) sendTo(st *State, c *RefV, x Val, el types.Type, in ssa.Instruction) []*State {
	tb := ex.tb
	pos := ex.lockPos(in)
	if cs, owner := ex.chanSpec(st, c); cs != nil {
		if !ex.committed(st, cs, cs.canSend, owner, c.prov.key, "send at "+pos) {
			return nil
		}
		return ex.chanHook(st, cs.send, owner, x)
	}
	if c.prov != nil && ex.eng.guarded[c.prov.key+"!"] != "" && !st.top().pure {
		ex.oblig(st, "C19.close-only-channel["+shortKey(c.prov.key)+"]", "lock", pos, tb.fls, "send on a channel that is only closed at "+pos)
	}
	closed := ex.chanClosed(st, c.t)
	return ex.must(st, tb.Or(tb.Eq(c.t, tb.zero), tb.Not(closed)), "closed-chan", instrPos(in), "send on closed channel", func(st *State) []*State {
		n, cp := ex.chanInt(st, "n", c.t), ex.chanInt(st, "cap", c.t)
		room, full := ex.fork(st, tb.Lt(n, cp))
		var out []*State
		if room != nil {
			ex.pushChan(room, c.t, x, el)
			out = append(out, room)
		}
		if full != nil {
			out = append(out, ex.blocked(full, c, "send at "+pos, in, func(st *State) []*State {
				// a receiver takes the value
				st.ghost["$sent"] = tb.AddC(ghostInt(ex, st, "$sent"), 1)
				return states(st)
			})...)
		}
		return out
	})
}

func (ex *Exec) pushChan(st *State, c *Term, x Val, el types.Type) {
	tb := ex.tb
	n, h := ex.chanInt(st, "n", c), ex.chanInt(st, "head", c)
	ex.leafKeys("chan#buf:"+typeKey(el), el, func(k string, lt types.Type, arr bool) { ex.keyT[k] = lt })
	ex.store(st, Loc{key: "chan#buf:" + typeKey(el), a: c, i: tb.Add(h, n)}, el, x)
	ex.store(st, Loc{key: "chan#n", a: c}, intTT, tb.AddC(n, 1))
	st.ghost["$sent"] = tb.AddC(ghostInt(ex, st, "$sent"), 1)
}

func (ex *Exec) popChan(st *State, c *Term, el types.Type) Val {
	tb := ex.tb
	n, h := ex.chanInt(st, "n", c), ex.chanInt(st, "head", c)
	v := ex.load(st, Loc{key: "chan#buf:" + typeKey(el), a: c, i: h}, el)
	ex.store(st, Loc{key: "chan#n", a: c}, intTT, tb.AddC(n, -1))
	ex.store(st, Loc{key: "chan#head", a: c}, intTT, tb.AddC(h, 1))
	return v
}

// blocked: the operation cannot proceed by itself. Unless the harness allows blocking (the
// environment then completes the operation), this is reported.
func (ex *Exec) blocked(st *State, c *RefV, what string, in ssa.Instruction, env func(st *State) []*State) []*State {
	tb := ex.tb
	prop := "C19"
	if t, ok := st.ghost["$blockprop"].(*Term); ok {
		if s, ok := tb.strOf[t]; ok {
			prop = s
		}
	}
	if t, ok := st.ghost["$allowblock"].(*Term); ok && t == tb.one {
		if len(st.locks) > 0 && st.ghost["$blocklocks"] == nil {
			var ks []string
			for _, h := range st.locks {
				ks = append(ks, shortKey(h.key))
			}
			_ = ks
		}
		st.cutTaint = true
		return env(st)
	}
	if len(st.spawned) > 0 && in != nil && !st.top().pure {
		// another goroutine runs, then the operation is tried again
		sp := st.spawned[0]
		st.spawned = append([]spawn(nil), st.spawned[1:]...)
		st.trace = append(st.trace, "goroutine runs while "+what+" waits")
		st.top().ip--
		return ex.callVal(st, sp.fn, sp.args, sp.call, nil, in)
	}
	ex.oblig(st, prop+".never-blocks", "block", ex.lockPos(in), tb.fls, "blocks forever: "+what)
	return nil
}

func (ex *Exec) recv(st *State, ret ssa.Value, c *RefV, el types.Type, commaOk bool, pos token.Pos) []*State {
	tb := ex.tb
	set := func(st *State, v Val, ok *Term) []*State {
		if commaOk {
			v = &TupleV{vs: []Val{v, ok}}
		}
		ex.setRes(st, ret, v)
		return states(st)
	}
	in, _ := ret.(ssa.Instruction)
	if cs, owner := ex.chanSpec(st, c); cs != nil {
		if !ex.committed(st, cs, cs.canRecv, owner, c.prov.key, "receive at "+ex.pos(pos)) {
			return nil
		}
		v := ex.envChanVal(st, c, el)
		set(st, v, tb.tru)
		return ex.chanHook(st, cs.recv, owner, v)
	}
	n := ex.chanInt(st, "n", c.t)
	some, none := ex.fork(st, tb.Gt(n, tb.zero))
	var out []*State
	if some != nil {
		v := ex.popChan(some, c.t, el)
		out = append(out, set(some, v, tb.tru)...)
	}
	if none != nil {
		cl, open := ex.fork(none, ex.chanClosed(none, c.t))
		if cl != nil {
			out = append(out, set(cl, ex.zeroVal(el), tb.fls)...)
		}
		if open != nil && c.prov != nil && c.prov.key == "time.Timer.C" { // the timer fires
			open.cutTaint = true
			out = append(out, set(open, ex.envChanVal(open, c, el), tb.tru)...)
			open = nil
		}
		if open != nil {
			out = append(out, ex.blocked(open, c, "receive at "+ex.pos(pos), in, func(st *State) []*State {
				if c.prov != nil && ex.eng.guarded[c.prov.key+"!"] != "" { // a channel that is only ever closed
					ex.havocChanClosed(st, c.t)
					return set(st, ex.zeroVal(el), tb.fls)
				}
				// delivered by the environment, or closed by it
				cl := st.clone()
				out := set(st, ex.envChanVal(st, c, el), tb.tru)
				ex.onEnvRecv(st, c)
				ex.havocChanClosed(cl, c.t)
				ex.onEnvRecv(cl, c)
				return append(out, set(cl, ex.zeroVal(el), tb.fls)...)
			})...)
		}
	}
	return out
}

func (ex *Exec) onEnvRecv(st *State, c *RefV) {
	st.trace = append(st.trace, "wait completed by the environment")
}

func (ex *Exec) havocChanClosed(st *State, c *Term) {
	ex.store(st, Loc{key: "chan#closed", a: c}, boolT, ex.tb.tru)
}

func (ex *Exec) envChanVal(st *State, c *RefV, el types.Type) Val {
	return ex.freshVal(st, "recv", el, ex.freshVer(st))
}

func (ex *Exec) selectInstr(st *State, f *Frame, i *ssa.Select) []*State {
	tb := ex.tb
	// result tuple: (index, recvOk, r0, r1, ...)
	var recvT []types.Type
	for _, s := range i.States {
		if s.Dir == types.RecvOnly {
			recvT = append(recvT, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	result := func(st *State, idx int, ok *Term, ri int, v Val) {
		t := &TupleV{vs: []Val{tb.Int(int64(idx)), ok}}
		for j, rt := range recvT {
			if j == ri {
				t.vs = append(t.vs, v)
			} else {
				t.vs = append(t.vs, ex.zeroVal(rt))
			}
		}
		st.top().regs[i] = t
	}
	var out []*State
	base := st
	ri := -1
	rest := base
	var proto *ChanSpec // a channel under a protocol takes part
	protoKey, protoOK := "", tb.fls
	others := false // something else the environment does ends the wait
	for idx, s := range i.States {
		c := ex.get(base, s.Chan).(*RefV)
		if c.t == tb.zero { // a nil channel is never ready
			if s.Dir == types.RecvOnly {
				ri++
			}
			continue
		}
		el := s.Chan.Type().Underlying().(*types.Chan).Elem()
		env := !base.localChan(c.t)
		if cs, owner := ex.chanSpec(base, c); cs != nil {
			d := base.clone()
			if s.Dir == types.RecvOnly {
				ri++
				v := ex.envChanVal(d, c, el)
				result(d, idx, tb.tru, ri, v)
				out = append(out, ex.chanHook(d, cs.recv, owner, v)...)
				if cs.canRecv != nil {
					protoOK = tb.Or(protoOK, ex.evalPure(base, cs.canRecv, []Val{owner}, nil).(*Term))
				}
			} else {
				x := ex.get(base, s.Send)
				result(d, idx, tb.fls, -1, nil)
				out = append(out, ex.chanHook(d, cs.send, owner, x)...)
				if cs.canSend != nil {
					protoOK = tb.Or(protoOK, ex.evalPure(base, cs.canSend, []Val{owner}, nil).(*Term))
				}
			}
			proto, protoKey = cs, c.prov.key
			continue
		}
		if env {
			others = true
		}
		if s.Dir == types.RecvOnly {
			ri++
			// ready by its own state
			a := base.clone()
			a.assume(tb.Neq(c.t, tb.zero))
			n := ex.chanInt(a, "n", c.t)
			a.assume(tb.Gt(n, tb.zero))
			if ex.feasiblePC(a) {
				v := ex.popChan(a, c.t, el)
				result(a, idx, tb.tru, ri, v)
				out = append(out, a)
			}
			b := base.clone()
			b.assume(tb.Neq(c.t, tb.zero))
			b.assume(tb.Le(ex.chanInt(b, "n", c.t), tb.zero))
			b.assume(ex.chanClosed(b, c.t))
			if ex.feasiblePC(b) {
				result(b, idx, tb.fls, ri, ex.zeroVal(el))
				out = append(out, b)
			}
			if env {
				// the environment makes it ready
				d := base.clone()
				d.assume(tb.Neq(c.t, tb.zero))
				d.assume(tb.Le(ex.chanInt(d, "n", c.t), tb.zero))
				d.assume(tb.Not(ex.chanClosed(d, c.t)))
				if ex.feasiblePC(d) {
					d.cutTaint = true
					ex.onEnvSelect(d, c)
					result(d, idx, tb.Fresh("selok", SBool, nil, nil), ri, ex.envChanVal(d, c, el))
					out = append(out, d)
				}
			}
			if rest != nil {
				rest.assume(tb.Or(tb.Eq(c.t, tb.zero), tb.And(tb.Le(ex.chanInt(rest, "n", c.t), tb.zero), tb.Not(ex.chanClosed(rest, c.t)))))
			}
		} else {
			x := ex.get(base, s.Send)
			a := base.clone()
			a.assume(tb.Neq(c.t, tb.zero))
			cl, op := ex.fork(a, ex.chanClosed(a, c.t))
			if cl != nil {
				cl.isPan = true
				cl.panicV = &IfaceV{tag: tb.Int(ex.eng.tag("runtime.Error")), val: ex.newRef(cl)}
				cl.panWhy = "closed-chan: send on closed channel"
				cl.panPos = i.Pos()
				out = append(out, cl)
			}
			if op != nil {
				b := op.clone()
				b.assume(tb.Lt(ex.chanInt(b, "n", c.t), ex.chanInt(b, "cap", c.t)))
				if ex.feasiblePC(b) {
					ex.pushChan(b, c.t, x, el)
					result(b, idx, tb.fls, -1, nil)
					out = append(out, b)
				}
				if env {
					d := op.clone()
					d.assume(tb.Neq(c.t, tb.zero))
					d.assume(tb.Ge(ex.chanInt(d, "n", c.t), ex.chanInt(d, "cap", c.t)))
					if ex.feasiblePC(d) {
						d.cutTaint = true
						d.ghost["$sent"] = tb.AddC(ghostInt(ex, d, "$sent"), 1)
						result(d, idx, tb.fls, -1, nil)
						out = append(out, d)
					}
				}
			}
			rest.assume(tb.Or(tb.Eq(c.t, tb.zero), tb.And(tb.Not(ex.chanClosed(rest, c.t)), tb.Ge(ex.chanInt(rest, "n", c.t), ex.chanInt(rest, "cap", c.t)))))
		}
	}
	if proto != nil && i.Blocking {
		if !others {
			ex.oblig(base, proto.prop+".never-blocks["+shortKey(protoKey)+"]", "block", ex.pos(i.Pos()), protoOK, "select at "+ex.pos(i.Pos())+" waits for a peer that is not committed to it, without noticing a disconnection")
		}
		return out
	}
	if !i.Blocking {
		if ex.feasiblePC(rest) {
			result(rest, -1, tb.fls, -1, nil)
			out = append(out, rest)
		}
	} else if len(out) == 0 && ex.feasiblePC(rest) {
		return ex.blocked(rest, nil, "select at "+ex.pos(i.Pos()), i, func(st *State) []*State { return nil })
	}
	return out
}

func (ex *Exec) onEnvSelect(st *State, c *RefV) {
	// a context that is done has an error from now on
	if c.t.op == "app" && c.t.name == "ctxdone" {
		st.ghost["$ctxended:"+fmt.Sprint(c.t.args[0].id)] = ex.tb.one
	}
}

// ---- atomics ----

// atomicRead: shared locations may have been changed by others at any time.
func (ex *Exec) atomicRead(st *State, p *PtrV, t types.Type) *Term {
	if st.isShared(p.loc.a) && !st.sequential() {
		rel := ex.eng.atRely[p.loc.key]
		if rel == nil {
			rel = ex.eng.atomics[p.loc.key]
		}
		var prev Val
		if rel != nil {
			prev = ex.load(st, p.loc, t)
		}
		ex.havocLoc(st, p.loc, t, ex.freshVer(st))
		v := ex.load(st, p.loc, t)
		if rel != nil {
			st.assume(ex.evalPure(st, rel, []Val{prev, v}, nil).(*Term))
		}
		return v.(*Term)
	}
	return ex.load(st, p.loc, t).(*Term)
}

var _ = big.NewInt
