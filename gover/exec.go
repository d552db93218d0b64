package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- engine-wide, shared between harnesses (read-only after set-up) ----

type Engine struct {
	l           *Loader
	contracts   map[*ssa.Function]*ssa.Function // function -> contract function
	chans       map[string]*ChanSpec            // channel fields under a protocol
	boundary    map[*ssa.Function]bool          // contracts used by callers in other packages only
	stubs       map[*ssa.Function]*ssa.Function // external function -> its model
	tags        map[string]int64
	intrin      map[string]Intrinsic
	initHeap    *Heap
	opts        Options
	noMutate    map[string]bool
	mu          sync.Mutex
	locks       map[string]*LockSpec
	guarded     map[string]string
	guardedMaps map[string]string
	atomics     map[string]*ssa.Function
	lockEdges   map[[2]string]string
	atomicProp  map[string]string
	refQuant    map[string]bool // pointer types quantified over in specifications
	atRely      map[string]*ssa.Function
	mutable     map[*ssa.Global]bool
}

type Options struct {
	unroll     int // >0: unroll loops that many times instead of cutting them
	timeoutMs  int
	maxPaths   int
	debug      bool
	useContr   bool
	debugLoops bool
	deadline   time.Time
	only       string // obligations of this property only
}

type Intrinsic func(ex *Exec, st *State, c *CallCtx) []*State

type CallCtx struct {
	fn    *ssa.Function // may be nil for interface methods
	args  []Val
	instr ssa.Instruction // the call instruction
	sig   *types.Signature
	name  string
	frame *Frame
	ret   ssa.Value
	set   func(st *State, v Val) // deliver the result
}

// ---- state ----

type pcNode struct {
	prev *pcNode
	t    *Term
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	fn      *ssa.Function
	regs    map[ssa.Value]Val
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	ip      int
	retTo   ssa.Value // register in the caller to receive the result
	defers  []deferred
	pure    bool // specification code: mathematical integers, no implicit checks
	cut     map[*ssa.BasicBlock]bool
	unrolls map[*ssa.BasicBlock]int
	// unwinding
	deferOf   *Frame // this frame runs a deferred call of that frame
	runDefers bool   // executing defers because of RunDefers
	panicking bool   // frame is unwinding
	recovered bool
	bindings  []Val
	onRet     func(ex *Exec, st *State, v Val) // engine-level continuation
	contract  *contractFrame
	noResult  bool
}

type contractFrame struct {
	use      bool
	target   *ssa.Function
	mods     []modLoc
	callPc   int
	called   bool
	dynPre   bool
	fresh0   int
	everyMod bool
}

type modLoc struct {
	loc   Loc
	t     types.Type
	rng   bool
	n     *Term
	whole bool
}

type Held struct {
	key   string
	a     *Term
	write bool
	snap  *Heap
	entry *Heap
	pos   string
}

type ndRec struct {
	node *Node // []byte memory when the value was made
	base string
	kind string
	t    types.Type
	v    Val
	name string
}

type State struct {
	ex       *Exec
	stack    []*Frame
	heap     *Heap
	pc       *pcNode
	npc      int
	pcset    map[*Term]bool
	nalloc   int
	locks    []Held
	last     map[string]*Heap    // snapshots at last unlock
	entry    map[string]*section // last (write) section of each lock
	nd       []ndRec
	cands    map[string][]*Term
	wlogs    []*wlog
	stops    []*stopCtx
	panicV   Val
	isPan    bool
	panWhy   string
	panPos   token.Pos
	spawned  []spawn
	trace    []string
	ghost    map[string]Val
	frame    *frameSpec
	steps    int
	done     bool
	noObl    bool
	cutTaint bool
	ext      bool // an external function without contract was called on this path
	shared   map[*Term]bool
	joinMode int
	frames0  int
	pureEval bool
}

type spawn struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type stopCtx struct {
	depth  int
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	back   *[]*State
}

func (st *State) clone() *State {
	n := *st
	n.stack = make([]*Frame, len(st.stack))
	remap := map[*Frame]*Frame{}
	for i, f := range st.stack {
		c := *f
		c.regs = make(map[ssa.Value]Val, len(f.regs)+4)
		for k, v := range f.regs {
			c.regs[k] = v
		}
		c.defers = append([]deferred(nil), f.defers...)
		if f.cut != nil {
			c.cut = map[*ssa.BasicBlock]bool{}
			for k, v := range f.cut {
				c.cut[k] = v
			}
		}
		if f.unrolls != nil {
			c.unrolls = map[*ssa.BasicBlock]int{}
			for k, v := range f.unrolls {
				c.unrolls[k] = v
			}
		}
		if f.contract != nil {
			cc := *f.contract
			cc.mods = append([]modLoc(nil), cc.mods...)
			c.contract = &cc
		}
		remap[f] = &c
		n.stack[i] = &c
	}
	for _, f := range n.stack {
		if f.deferOf != nil {
			if g, ok := remap[f.deferOf]; ok {
				f.deferOf = g
			}
		}
	}
	n.heap = st.heap.clone()
	n.pcset = make(map[*Term]bool, len(st.pcset))
	for k := range st.pcset {
		n.pcset[k] = true
	}
	n.locks = append([]Held(nil), st.locks...)
	n.nd = append([]ndRec(nil), st.nd...)
	n.cands = map[string][]*Term{}
	for k, v := range st.cands {
		n.cands[k] = v[:len(v):len(v)]
	}
	n.entry = map[string]*section{}
	for k, v := range st.entry {
		n.entry[k] = v
	}
	n.last = map[string]*Heap{}
	for k, v := range st.last {
		n.last[k] = v
	}
	n.ghost = map[string]Val{}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.shared = map[*Term]bool{}
	for k, v := range st.shared {
		n.shared[k] = v
	}
	n.spawned = append([]spawn(nil), st.spawned...)
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	return &n
}

func (st *State) top() *Frame { return st.stack[len(st.stack)-1] }

func (st *State) assume(t *Term) {
	if t == st.ex.tb.tru || st.pcset[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pc = &pcNode{st.pc, t}
	st.npc++
	st.pcset[t] = true
}

func (st *State) pcs() []*Term {
	out := make([]*Term, st.npc)
	i := st.npc - 1
	for n := st.pc; n != nil; n = n.prev {
		out[i] = n.t
		i--
	}
	return out
}

func (st *State) addCand(kind string, t *Term) {
	if t.bvs {
		return
	}
	for _, o := range st.cands[kind] {
		if o == t {
			return
		}
	}
	if len(st.cands[kind]) > 60 {
		return
	}
	st.cands[kind] = append(st.cands[kind], t)
}

// takeCands adds the instantiation candidates found by an evaluation branched off st.
func (st *State) takeCands(from *State) {
	for k, v := range from.cands {
		if n := len(st.cands[k]); len(v) > n {
			for _, t := range v {
				st.addCand(k, t)
			}
		}
	}
}

// ---- executor for one verification unit ----

type Obl struct {
	id    string // label
	kind  string
	pos   string
	n     int // number of verification conditions
	ok    int
	fails []*Fail
	secs  float64
	back  map[string]int
}

type Fail struct {
	why   string // sat / unknown / panic
	path  []string
	nd    []ndRec
	as    []*Term
	cands map[string][]*Term
	ext   bool
	taint bool // path contains a cut loop or interference (model not directly executable)
	model string

	st  *State
	msg string
}

type Exec struct {
	eng       *Engine
	opts      Options
	tb        *TB
	unit      string
	obls      map[string]*Obl
	oblSeq    []string
	keyT      map[string]types.Type
	verLow    map[string]*big.Int
	nver      int
	npaths    int
	lastFail  string
	omu       sync.Mutex
	owg       sync.WaitGroup
	nsteps    int
	assume    map[string]bool // recorded assumptions (trusted externals)
	joins     []*Term         // paths joined
	textDone  map[*Term]bool  // texts whose facts as a path are attached
	idxDone   map[*Term]bool  // text positions and paths whose facts are attached
	funcs     map[string]bool // functions executed
	covers    map[string]bool
	infer     int
	qtime     time.Duration
	nq        int
	verify    *ssa.Function // contract function being verified
	disable   map[*ssa.Function]bool
	bounded   map[string]bool // loops unrolled with a bound
	scans     []*scanDef
	seqm      map[*Term]*seqRec
	seqk      map[string]*Term
	errs      []string
	loopInv   int
	lockOrd   map[string]bool
	usedC     map[string]bool
	truncated bool
	qdepth    int
	nloops    int
	expect    map[string]bool
	panicProp string
	blockProp string
	nsafe     int
	nsafeOK   int
	leaves    int
}

func newExec(eng *Engine, unit string) *Exec {
	ex := &Exec{eng: eng, opts: eng.opts, tb: NewTB(), unit: unit, obls: map[string]*Obl{}, keyT: map[string]types.Type{}, verLow: map[string]*big.Int{},
		assume: map[string]bool{}, funcs: map[string]bool{}, covers: map[string]bool{}, disable: map[*ssa.Function]bool{},
		bounded: map[string]bool{}, seqm: map[*Term]*seqRec{}, idxDone: map[*Term]bool{}, textDone: map[*Term]bool{}, seqk: map[string]*Term{}, lockOrd: map[string]bool{}, usedC: map[string]bool{}, expect: map[string]bool{}}
	ex.tb.onApp = ex.onApp
	ex.tb.hasPair = ex.hasPair
	return ex
}

func (ex *Exec) pos(p token.Pos) string {
	if p == token.NoPos {
		return "-"
	}
	q := ex.eng.l.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, ex.eng.l.repo+"/")
	f = strings.TrimPrefix(f, ex.eng.l.specDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Exec) check(st *State, extra *Term, ms int, fallback bool) Result {
	t0 := time.Now()
	ex.nq++
	r, _, _ := ex.tb.Check(append(st.pcs(), extra), st.cands, ms, fallback)
	ex.omu.Lock()
	ex.qtime += time.Since(t0)
	ex.omu.Unlock()
	return r
}

// feasible tells whether c may hold on the path (unknown counts as yes).
func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == ex.tb.tru || st.pcset[c] {
		return true
	}
	if c == ex.tb.fls || st.pcset[ex.tb.Not(c)] {
		return false
	}
	return ex.check(st, c, 1500, false) != Unsat
}

// feasiblePC tells whether the path condition itself may hold.
func (ex *Exec) feasiblePC(st *State) bool {
	if st.pureEval {
		return true
	}
	return ex.check(st, ex.tb.tru, 1500, false) != Unsat
}

// implied tells whether c certainly holds on the path.
func (ex *Exec) implied(st *State, c *Term) bool {
	if c == ex.tb.tru || st.pcset[c] {
		return true
	}
	if c == ex.tb.fls {
		return false
	}
	return ex.check(st, ex.tb.Not(c), 1500, false) == Unsat
}

// oblig discharges goal under the path condition and records the outcome.
func (ex *Exec) oblig(st *State, id, kind string, pos string, goal *Term, msg string) {
	if ex.infer > 0 || st.noObl || ex.ignored(id) {
		return
	}
	o := ex.obls[id]
	if o == nil {
		o = &Obl{id: id, kind: kind, pos: pos, back: map[string]int{}}
		ex.obls[id] = o
		ex.oblSeq = append(ex.oblSeq, id)
	}
	o.n++
	if goal == ex.tb.tru || st.pcset[goal] {
		ex.omu.Lock()
		o.ok++
		o.back["simplifier"]++
		ex.omu.Unlock()
		return
	}
	as := append(st.pcs(), ex.tb.Not(goal))
	ex.nq++
	f := &Fail{path: append([]string(nil), st.trace...), nd: append([]ndRec(nil), st.nd...), as: as, cands: copyCands(st.cands), taint: st.cutTaint, ext: st.ext, msg: msg, st: st}
	ex.later(as, st.cands, func(r Result, q *Query, back string, d time.Duration) {
		ex.qtime += d
		o.secs += d.Seconds()
		if r == Unsat {
			o.ok++
			o.back[back]++
			if crossCheck && q != nil {
				ex.cross(q, id)
			}
			return
		}
		o.addFail(f, r)
	})
}

// ignored: an obligation of another property than the one being checked.
func (ex *Exec) ignored(id string) bool {
	return ex.opts.only != "" && labelRe.MatchString(id) && !strings.HasPrefix(id, ex.opts.only+".")
}

func (o *Obl) addFail(f *Fail, r Result) {
	f.why = r.String()
	if f.why == "sat" && f.ext {
		f.why = "sat-external" // depends on the result of a function without contract: not believed unless replayed
	}
	if len(o.fails) < 4 {
		o.fails = append(o.fails, f)
	} else {
		o.fails = append(o.fails, &Fail{why: f.why, taint: f.taint, msg: f.msg})
	}
}

func copyCands(c map[string][]*Term) map[string][]*Term {
	m := map[string][]*Term{}
	for k, v := range c {
		m[k] = v[:len(v):len(v)]
	}
	return m
}

var crossCheck = false

func (ex *Exec) cross(q *Query, id string) {
	r := runQuery("cvc5", q.text, 10000)
	smtStats.Lock()
	smtStats.Cross++
	if r == Sat {
		smtStats.Disagree = append(smtStats.Disagree, ex.unit+"/"+id)
	}
	smtStats.Unlock()
}

type pathAbort struct{ why string }

// ---- running ----

func (ex *Exec) newState() *State {
	st := &State{ex: ex, heap: &Heap{m: map[string]*Node{}, base: "0"}, pcset: map[*Term]bool{}, cands: map[string][]*Term{}, last: map[string]*Heap{}, entry: map[string]*section{}, ghost: map[string]Val{}, shared: map[*Term]bool{}}
	return st
}

func (ex *Exec) pushCall(st *State, fn *ssa.Function, args []Val, bind []Val, retTo ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: " + fn.String()))
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, blk: fn.Blocks[0], retTo: retTo, bindings: bind}
	f.pure = ex.eng.l.isSpec(fn) || (len(st.stack) > 0 && st.top().pure && isSynthetic(fn))
	if len(args) != len(fn.Params) {
		panic(unsup(fmt.Sprintf("call %s with %d args", fn, len(args))))
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.regs[fv] = bind[i]
	}
	if len(st.stack) > 60 {
		panic(unsup("call depth: recursion " + fn.String()))
	}
	st.stack = append(st.stack, f)
	if !f.pure && ex.infer == 0 {
		ex.funcs[fn.String()] = true
	}
	return f
}

func isSynthetic(fn *ssa.Function) bool { return fn.Synthetic != "" }

// run explores all paths from st; leaf is called for every completed path.
func (ex *Exec) run(st *State, leaf func(st *State)) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for !s.done {
			succ, ok := ex.safeStep(s)
			if !ok {
				break
			}
			if len(succ) == 0 {
				s.done = true
				break
			}
			for _, o := range succ[1:] {
				work = append(work, o)
			}
			s = succ[0]
			if len(s.stack) == 0 || s.isLeaf() {
				ex.npaths++
				leaf(s)
				break
			}
		}
		if ex.npaths > ex.opts.maxPaths {
			ex.truncated = true
			ex.fail(st, "path-limit", "path limit reached in "+ex.unit)
			return
		}
	}
}

func (st *State) isLeaf() bool { return len(st.stack) == st.frames0 }

func (ex *Exec) fail(st *State, id, msg string) {
	ex.lastFail = msg
	if ex.infer > 0 || (st != nil && st.noObl) {
		return
	}
	o := ex.obls[id]
	if o == nil {
		o = &Obl{id: id, kind: "engine", back: map[string]int{}}
		ex.obls[id] = o
		ex.oblSeq = append(ex.oblSeq, id)
	}
	o.n++
	f := &Fail{why: "tool-limit", msg: msg}
	if st != nil {
		f.path = append([]string(nil), st.trace...)
	}
	o.fails = append(o.fails, f)
}

func (ex *Exec) safeStep(st *State) (succ []*State, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				where := ""
				if len(st.stack) > 0 {
					f := st.top()
					where = f.fn.String()
					if f.ip > 0 && f.ip <= len(f.blk.Instrs) {
						where += " " + ex.pos(f.blk.Instrs[f.ip-1].Pos()) + " " + f.blk.Instrs[f.ip-1].String()
					}
				}
				ex.fail(st, "tool-limit", e.msg+" at "+where)
				if ex.infer > 0 {
					ex.errs = append(ex.errs, e.msg+" at "+where)
				}
				succ, ok = nil, false
			case pathAbort:
				succ, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	ex.nsteps++
	if !ex.opts.deadline.IsZero() && time.Now().After(ex.opts.deadline) {
		panic(unsup("time budget exhausted"))
	}
	return ex.step(st), true
}

// fork on a condition; both sides get the condition on their path.
func (ex *Exec) fork(st *State, c *Term) (t, f *State) {
	tb := ex.tb
	if c == tb.tru {
		return st, nil
	}
	if c == tb.fls {
		return nil, st
	}
	if st.pcset[c] {
		return st, nil
	}
	nc := tb.Not(c)
	if st.pcset[nc] {
		return nil, st
	}
	if st.pureEval {
		o := st.clone()
		st.assume(c)
		o.assume(nc)
		return st, o
	}
	ft := ex.feasible(st, c)
	if !ft {
		st.assume(nc)
		return nil, st
	}
	ff := ex.feasible(st, nc)
	if !ff {
		st.assume(c)
		return st, nil
	}
	o := st.clone()
	st.assume(c)
	o.assume(nc)
	return st, o
}

func states(xs ...*State) []*State {
	var out []*State
	for _, x := range xs {
		if x != nil {
			out = append(out, x)
		}
	}
	return out
}

func (ex *Exec) step(st *State) []*State {
	if st.isPan {
		return ex.unwind(st)
	}
	f := st.top()
	if f.ip >= len(f.blk.Instrs) {
		panic("fell off block")
	}
	in := f.blk.Instrs[f.ip]
	f.ip++
	st.steps++
	if ex.opts.debug {
		fmt.Fprintf(os.Stderr, "%*s%s | %s\n", len(st.stack), "", f.fn.Name(), in)
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
		return states(st)
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		a := ex.newRef(st)
		key := objKey(t)
		ex.zeroInit(st, key, t, a)
		f.regs[i] = &PtrV{loc: Loc{key: key, a: a}}
		return states(st)
	case *ssa.BinOp:
		return ex.binop(st, f, i)
	case *ssa.UnOp:
		return ex.unop(st, f, i)
	case *ssa.ChangeType:
		f.regs[i] = ex.changeType(ex.get(st, i.X), i.Type())
		return states(st)
	case *ssa.Convert:
		return ex.convert(st, f, i)
	case *ssa.ChangeInterface:
		f.regs[i] = ex.get(st, i.X)
		return states(st)
	case *ssa.MakeInterface:
		f.regs[i] = ex.makeIface(ex.get(st, i.X), i.X.Type())
		return states(st)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, ex.get(st, b))
		}
		f.regs[i] = fv
		return states(st)
	case *ssa.MakeMap:
		a := ex.newRef(st)
		mt := i.Type().Underlying().(*types.Map)
		ex.initMap(st, mt, a)
		f.regs[i] = &RefV{t: a}
		return states(st)
	case *ssa.MakeChan:
		a := ex.newRef(st)
		for _, k := range []string{"chan#closed", "chan#n"} {
			st.heap.m[k] = &Node{kind: NZero, prev: ex.node(st, k), a: a}
		}
		ex.keyT["chan#closed"] = types.Typ[types.Bool]
		ex.keyT["chan#n"] = types.Typ[types.Int]
		ex.keyT["chan#cap"] = types.Typ[types.Int]
		sz := ex.get(st, i.Size).(*Term)
		ex.store(st, Loc{key: "chan#cap", a: a}, types.Typ[types.Int], sz)
		f.regs[i] = &RefV{t: a}
		return states(st)
	case *ssa.MakeSlice:
		return ex.makeSlice(st, f, i)
	case *ssa.FieldAddr:
		return ex.withVal(st, i.X, func(st *State, v Val) []*State {
			f := st.top()
			p := v.(*PtrV)
			stt := i.X.Type().Underlying().(*types.Pointer).Elem()
			k := fieldKey(stt, i.Field)
			res := &PtrV{loc: Loc{key: p.loc.key + "." + k, a: p.loc.a, i: p.loc.i, snap: p.loc.snap}}
			if f.pure {
				f.regs[i] = res
				return states(st)
			}
			return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", i.Pos(), "nil pointer dereference", func(st *State) []*State {
				if k := "key:*" + p.loc.key; ex.eng.refQuant[k] && !p.loc.a.bvs {
					st.addCand(k, p.loc.a)
				}
				st.top().regs[i] = res
				return states(st)
			})
		})
	case *ssa.Field:
		return ex.withVal(st, i.X, func(st *State, v Val) []*State {
			st.top().regs[i] = v.(*StructV).fs[i.Field]
			return states(st)
		})
	case *ssa.IndexAddr:
		return ex.indexAddr(st, f, i)
	case *ssa.Index:
		return ex.index(st, f, i)
	case *ssa.Lookup:
		return ex.lookup(st, f, i)
	case *ssa.Slice:
		return ex.slice(st, f, i)
	case *ssa.SliceToArrayPointer:
		panic(unsup("slice to array pointer"))
	case *ssa.Store:
		return ex.withVal(st, i.Addr, func(st *State, pv Val) []*State {
			return ex.withVal(st, i.Val, func(st *State, v Val) []*State {
				f := st.top()
				p := pv.(*PtrV)
				t := i.Addr.Type().Underlying().(*types.Pointer).Elem()
				do := func(st *State) []*State {
					f := st.top()
					if !f.pure {
						ex.accessCheck(st, p.loc, true, i.Pos())
					}
					ex.store(st, p.loc, t, v)
					return states(st)
				}
				if f.pure {
					return do(st)
				}
				return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", i.Pos(), "nil pointer dereference (store)", do)
			})
		})
	case *ssa.MapUpdate:
		return ex.mapUpdate(st, f, i)
	case *ssa.Extract:
		return ex.withVal(st, i.Tuple, func(st *State, v Val) []*State {
			st.top().regs[i] = v.(*TupleV).vs[i.Index]
			return states(st)
		})
	case *ssa.TypeAssert:
		return ex.typeAssert(st, f, i)
	case *ssa.Range:
		return ex.rangeInstr(st, f, i)
	case *ssa.Next:
		return ex.nextInstr(st, f, i)
	case *ssa.Jump:
		return ex.enterBlock(st, f.blk, f.blk.Succs[0])
	case *ssa.If:
		v, ok := ex.get(st, i.Cond).(*Term)
		if !ok {
			panic(unsup("non-term condition"))
		}
		from := f.blk
		if f.pure && !st.pureEval && !v.isConst() {
			if d := ex.eng.l.joinOf(from); d != nil {
				return ex.shortCircuit(st, d)
			}
		}
		a, b := ex.fork(st, v)
		var out []*State
		if a != nil {
			out = append(out, ex.enterBlock(a, from, from.Succs[0])...)
		}
		if b != nil {
			out = append(out, ex.enterBlock(b, from, from.Succs[1])...)
		}
		return out
	case *ssa.Phi:
		panic("phi outside block entry")
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = ex.get(st, i.Results[0])
		default:
			t := &TupleV{}
			for _, r := range i.Results {
				t.vs = append(t.vs, ex.get(st, r))
			}
			v = t
		}
		return ex.doReturn(st, v)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.ip-- // run again until empty
			return ex.callVal(st, d.fn, d.args, d.call, nil, i)
		}
		return states(st)
	case *ssa.Defer:
		fn, args := ex.callTarget(st, &i.Call)
		f.defers = append(f.defers, deferred{fn: fn, args: args, call: &i.Call})
		return states(st)
	case *ssa.Go:
		fn, args := ex.callTarget(st, &i.Call)
		return ex.goStmt(st, fn, args, &i.Call, i)
	case *ssa.Call:
		fn, args := ex.callTarget(st, &i.Call)
		return ex.callVal(st, fn, args, &i.Call, i, i)
	case *ssa.Panic:
		v := ex.get(st, i.X)
		st.isPan = true
		st.panicV = v
		st.panWhy = "explicit panic"
		st.panPos = i.Pos()
		return states(st)
	case *ssa.Send:
		return ex.send(st, f, i)
	case *ssa.Select:
		return ex.selectInstr(st, f, i)
	}
	panic(unsup(fmt.Sprintf("instruction %T", in)))
}

func (ex *Exec) isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// must: implicit run-time check. The failing side becomes a panicking path.
func (ex *Exec) must(st *State, c *Term, kind string, pos token.Pos, msg string, cont func(st *State) []*State) []*State {
	if ex.infer == 0 && !st.noObl {
		ex.nsafe++
	}
	ok, bad := ex.fork(st, c)
	if bad == nil && ex.infer == 0 && !st.noObl {
		ex.nsafeOK++
	}
	var out []*State
	if ok != nil {
		out = append(out, cont(ok)...)
	} else if bad == nil {
		return nil
	}
	if bad != nil {
		bad.isPan = true
		bad.panicV = &IfaceV{tag: ex.tb.Int(ex.eng.tag("runtime.Error")), val: ex.newRef(bad)}
		bad.panWhy = kind + ": " + msg
		bad.panPos = pos
		out = append(out, bad)
	}
	return out
}

// withVal delivers a register value, forking on unmerged choices.
func (ex *Exec) withVal(st *State, r ssa.Value, k func(st *State, v Val) []*State) []*State {
	return ex.split(st, ex.get(st, r), k)
}
func (ex *Exec) split(st *State, v Val, k func(st *State, v Val) []*State) []*State {
	if m, ok := v.(*MuxV); ok {
		a, b := ex.fork(st, m.c)
		var out []*State
		if a != nil {
			out = append(out, ex.split(a, m.x, k)...)
		}
		if b != nil {
			out = append(out, ex.split(b, m.y, k)...)
		}
		return out
	}
	return k(st, v)
}

func (ex *Exec) doReturn(st *State, v Val) []*State {
	f := st.top()
	for _, s := range st.stops {
		if len(st.stack) == s.depth {
			return nil // leaving the loop under inference
		}
	}
	st.stack = st.stack[:len(st.stack)-1]
	if f.onRet != nil {
		f.onRet(ex, st, v)
		if st.done {
			return nil
		}
		if st.isPan {
			return states(st)
		}
	}
	if f.deferOf != nil {
		// a deferred call finished
		g := f.deferOf
		if g.panicking && g.recovered {
			// recovered: the frame returns to its caller
			st.isPan = false
			g.panicking = false
			if g.fn.Recover != nil {
				g.blk = g.fn.Recover
				g.ip = 0
				// remaining defers run first (RunDefers is in the recover block's predecessors only)
				return ex.drainDefers(st, g)
			}
			return ex.drainThenReturn(st, g)
		}
		if g.panicking {
			st.isPan = true
		}
		return states(st)
	}
	if len(st.stack) > 0 && f.retTo != nil {
		st.top().regs[f.retTo] = v
	}
	if len(st.stack) == st.frames0 {
		st.ghost["$ret"] = v
	}
	return states(st)
}

func (ex *Exec) drainDefers(st *State, g *Frame) []*State {
	if len(g.defers) == 0 {
		return states(st)
	}
	// run remaining deferred calls before the recover block
	d := g.defers[len(g.defers)-1]
	g.defers = g.defers[:len(g.defers)-1]
	n := len(st.stack)
	out := ex.callVal(st, d.fn, d.args, d.call, nil, nil)
	for _, s := range out {
		if len(s.stack) > n {
			fr := s.stack[n]
			prev := fr.onRet
			fr.onRet = func(ex *Exec, st *State, v Val) {
				if prev != nil {
					prev(ex, st, v)
				}
			}
		}
	}
	if len(g.defers) > 0 {
		panic(unsup("several deferred calls after recover"))
	}
	return out
}

func (ex *Exec) drainThenReturn(st *State, g *Frame) []*State {
	if len(g.defers) > 0 {
		panic(unsup("deferred calls after recover without recover block"))
	}
	var v Val
	res := g.fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		v = ex.zeroVal(res.At(0).Type())
	default:
		v = ex.zeroVal(res)
	}
	return ex.doReturn(st, v)
}

// unwind continues a panicking path.
func (ex *Exec) unwind(st *State) []*State {
	if len(st.stack) == st.frames0 {
		return nil
	}
	f := st.top()
	for _, s := range st.stops {
		if len(st.stack) == s.depth && len(f.defers) == 0 {
			return nil
		}
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		f.panicking = true
		f.recovered = false
		st.isPan = false
		n := len(st.stack)
		out := ex.callVal(st, d.fn, d.args, d.call, nil, nil)
		for _, s := range out {
			if len(s.stack) > n {
				s.stack[n].deferOf = s.stack[n-1]
			} else if !s.isPan {
				s.isPan = true // builtin deferred call: continue unwinding
			}
		}
		return out
	}
	// uncaught in this frame
	if len(st.stack) == st.frames0+1 {
		ex.topPanic(st)
		return nil
	}
	if f.deferOf != nil {
		// a panic inside a deferred call replaces the old one
	}
	if f.onRet != nil && f.contract != nil {
		// panic leaving a function under contract
	}
	st.stack = st.stack[:len(st.stack)-1]
	return states(st)
}

func (ex *Exec) topPanic(st *State) {
	if ex.infer > 0 || st.noObl {
		return
	}
	pp := ex.panicProp
	if pp == "" {
		pp = propOf(ex.unit)
	}
	id := pp + ".no-panic"
	if ex.ignored(id) {
		return
	}
	pos := ex.pos(st.panPos)
	o := ex.obls[id]
	if o == nil {
		o = &Obl{id: id, kind: "panic", pos: pos, back: map[string]int{}}
		ex.obls[id] = o
		ex.oblSeq = append(ex.oblSeq, id)
	}
	o.n++
	// confirm with the full timeout
	as := st.pcs()
	f := &Fail{path: append([]string(nil), st.trace...), nd: append([]ndRec(nil), st.nd...), as: as, cands: copyCands(st.cands), taint: st.cutTaint, ext: st.ext, msg: st.panWhy + " at " + pos, st: st}
	ex.later(as, st.cands, func(r Result, q *Query, back string, d time.Duration) {
		if r == Unsat {
			o.ok++
			o.back[back]++
			return
		}
		o.addFail(f, r)
	})
}

// ---- operands ----

func (eng *Engine) tag(key string) int64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	if t, ok := eng.tags[key]; ok {
		return t
	}
	t := int64(len(eng.tags) + 1)
	eng.tags[key] = t
	return t
}

func (ex *Exec) get(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return ex.constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Global:
		return &PtrV{loc: Loc{key: "glob:" + c.String(), a: ex.tb.one}}
	case *ssa.Builtin:
		return &FuncV{blt: c.Name(), t: ex.tb.zero}
	}
	if r, ok := st.top().regs[v]; ok {
		return r
	}
	panic(fmt.Sprintf("register %s not set in %s", v.Name(), st.top().fn))
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return ex.tb.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return ex.strConst(constant.StringVal(c.Value))
	case constant.Int:
		if isFloat(t) {
			return ex.tb.App("float:"+c.Value.ExactString(), SInt, nil, nil)
		}
		v := constant.Val(c.Value)
		switch x := v.(type) {
		case int64:
			return ex.tb.Int(x)
		case *big.Int:
			return ex.tb.Big(x)
		}
	case constant.Float:
		if isFloat(t) {
			return ex.tb.App("float:"+c.Value.ExactString(), SInt, nil, nil)
		}
		if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
			switch x := constant.Val(iv).(type) {
			case int64:
				return ex.tb.Int(x)
			case *big.Int:
				return ex.tb.Big(x)
			}
		}
	}
	panic(unsup("constant " + c.String()))
}

func (ex *Exec) changeType(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *StructV:
		c := *x
		c.t = t
		return &c
	case *MuxV:
		return &MuxV{x.c, ex.changeType(x.x, t), ex.changeType(x.y, t)}
	case *PtrV:
		// pointer conversion between types with identical underlying types
		if p, ok := t.Underlying().(*types.Pointer); ok {
			_ = p
		}
	}
	return v
}

func (ex *Exec) makeIface(v Val, t types.Type) Val {
	if m, ok := v.(*MuxV); ok {
		return &MuxV{m.c, ex.makeIface(m.x, t), ex.makeIface(m.y, t)}
	}
	return &IfaceV{tag: ex.tb.Int(ex.eng.tag(typeKey(t))), typ: t, val: v}
}

// refTerm maps a reference-like value to its identity.
func (ex *Exec) refTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *PtrV:
		if x.loc.i != nil {
			panic(unsup("identity of element pointer"))
		}
		if isFieldKey(x.loc.key) {
			return ex.tb.App("sub:"+x.loc.key, SInt, nil, nil, x.loc.a)
		}
		return x.loc.a
	case *RefV:
		return x.t
	case *FuncV:
		if x.fn == nil {
			return x.t
		}
		return ex.tb.Int(1000000 + ex.eng.tag("func:"+x.fn.String()))
	case *SliceV:
		return x.arr
	}
	panic(unsup(fmt.Sprintf("identity of %T", v)))
}

func isFieldKey(k string) bool {
	// type keys are "pkg/path.Name"; field keys have a further ".f" component
	i := strings.LastIndex(k, "/")
	return strings.Count(k[i+1:], ".") > 1
}

func (ex *Exec) eqVal(st *State, x, y Val) *Term {
	tb := ex.tb
	switch a := x.(type) {
	case *Term:
		return tb.Eq(a, y.(*Term))
	case *PtrV:
		b := y.(*PtrV)
		if a.loc.a == tb.zero {
			return tb.Eq(b.loc.a, tb.zero)
		}
		if b.loc.a == tb.zero {
			return tb.Eq(a.loc.a, tb.zero)
		}
		if a.loc.key != b.loc.key {
			// different kinds of location: equal only if both nil
			return tb.And(tb.Eq(a.loc.a, tb.zero), tb.Eq(b.loc.a, tb.zero))
		}
		r := tb.Eq(a.loc.a, b.loc.a)
		if a.loc.i != nil && b.loc.i != nil {
			r = tb.And(r, tb.Eq(a.loc.i, b.loc.i))
		}
		return r
	case *RefV:
		return tb.Eq(a.t, y.(*RefV).t)
	case *SliceV: // only against nil
		b := y.(*SliceV)
		if b.arr == tb.zero {
			return tb.Eq(a.arr, tb.zero)
		}
		return tb.Eq(b.arr, tb.zero)
	case *FuncV:
		b := y.(*FuncV)
		if a.fn != nil || a.blt != "" {
			if b.fn == nil && b.t == tb.zero {
				return tb.fls
			}
		}
		if b.fn != nil || b.blt != "" {
			if a.fn == nil && a.t == tb.zero {
				return tb.fls
			}
		}
		return tb.Eq(ex.refTerm(a), ex.refTerm(b))
	case *StructV:
		b := y.(*StructV)
		r := tb.tru
		for i := range a.fs {
			r = tb.And(r, ex.eqVal(st, a.fs[i], b.fs[i]))
		}
		return r
	case *ArrayV:
		b := y.(*ArrayV)
		r := tb.tru
		for i := range a.es {
			r = tb.And(r, ex.eqVal(st, a.es[i], b.es[i]))
		}
		return r
	case *IfaceV:
		b := y.(*IfaceV)
		te := tb.Eq(a.tag, b.tag)
		if te == tb.fls {
			return te
		}
		if a.tag == tb.zero || b.tag == tb.zero {
			return te
		}
		if a.typ != nil && b.typ != nil {
			if !types.Identical(a.typ, b.typ) {
				return tb.And(te, tb.Eq(a.tag, tb.zero))
			}
			return tb.And(te, tb.Or(tb.Eq(a.tag, tb.zero), ex.eqVal(st, a.val, b.val)))
		}
		da, db := ex.ifaceData(st, a), ex.ifaceData(st, b)
		return tb.And(te, tb.Or(tb.Eq(a.tag, tb.zero), tb.Eq(da, db)))
	}
	panic(unsup(fmt.Sprintf("comparison of %T", x)))
}

// ifaceData is the identity of the dynamic value.
func (ex *Exec) ifaceData(st *State, a *IfaceV) *Term {
	if a.typ == nil {
		return a.val.(*Term)
	}
	switch v := a.val.(type) {
	case *PtrV, *RefV:
		return ex.refTerm(v)
	case *Term:
		return v
	case *StructV:
		if len(v.fs) == 0 {
			return ex.tb.zero
		}
		if len(v.fs) == 1 {
			if t, ok := v.fs[0].(*Term); ok {
				return t
			}
		}
	}
	// structurally compared values: an unconstrained identity
	return ex.tb.Fresh("box", SInt, nil, nil)
}

func (ex *Exec) sortedObls() []*Obl {
	var out []*Obl
	for _, id := range ex.oblSeq {
		out = append(out, ex.obls[id])
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
