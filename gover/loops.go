package main

// Loops: exact unrolling of loops with concrete conditions, otherwise cutting at the header with
// inferred (and proved) inductive invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	blocks map[*ssa.BasicBlock]bool
}

var loopCache sync.Map // *ssa.Function -> map[*ssa.BasicBlock]*loopInfo

func dominates(a, b *ssa.BasicBlock) bool {
	for x := b; x != nil; x = x.Idom() {
		if x == a {
			return true
		}
	}
	return false
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if v, ok := loopCache.Load(fn); ok {
		return v.(map[*ssa.BasicBlock]*loopInfo)
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !dominates(h, b) {
				continue
			}
			li := m[h]
			if li == nil {
				li = &loopInfo{blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopCache.Store(fn, m)
	return m
}

func (ex *Exec) enterBlock(st *State, from, to *ssa.BasicBlock) []*State {
	f := st.top()
	// leaving a loop under inference
	for _, s := range st.stops {
		if len(st.stack) == s.depth && s.blocks[from] && !s.blocks[to] {
			return nil
		}
	}
	var pi = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// simultaneous phi assignment
	n := 0
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, ex.get(st, p.Edges[pi]))
		n++
	}
	for j := 0; j < n; j++ {
		f.regs[to.Instrs[j].(*ssa.Phi)] = vals[j]
	}
	f.prev, f.blk, f.ip = from, to, n
	li := loopsOf(f.fn)[to]
	if li == nil {
		return states(st)
	}
	back := li.blocks[from] && dominates(to, from)
	if back && !f.pure {
		if t := ex.flagOf(f, to, li); t != nil {
			// a state that leaves the loop at its header is no further iteration
			stay, leave := ex.fork(st, t)
			var out []*State
			if leave != nil {
				inner := false
				for _, s := range leave.stops {
					inner = inner || len(leave.stack) == s.depth && s.header == to
				}
				if !inner {
					out = append(out, leave)
				}
			}
			if stay == nil {
				return out
			}
			return append(out, ex.loopHeader(stay, to, li, true)...)
		}
	}
	return ex.loopHeader(st, to, li, back)
}

// flagOf is the condition under which the loop goes on, if that is a variable which says so and
// the loop does more than compute.
func (ex *Exec) flagOf(f *Frame, h *ssa.BasicBlock, li *loopInfo) *Term {
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	x, neg := last.Cond, false
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.NOT {
		x, neg = u.X, true
	}
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != h || li.blocks[h.Succs[0]] == li.blocks[h.Succs[1]] {
		return nil
	}
	calls := false
	for b := range li.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				_, builtin := c.Call.Value.(*ssa.Builtin)
				calls = calls || !builtin
			}
		}
	}
	t, ok := f.regs[p].(*Term)
	if !calls || !ok {
		return nil
	}
	if neg {
		t = ex.tb.Not(t)
	}
	if !li.blocks[h.Succs[0]] {
		t = ex.tb.Not(t)
	}
	return t
}

func (ex *Exec) loopHeader(st *State, to *ssa.BasicBlock, li *loopInfo, back bool) []*State {
	f := st.top()
	if f.unrolls == nil {
		f.unrolls = map[*ssa.BasicBlock]int{}
		f.cut = map[*ssa.BasicBlock]bool{}
	}
	if back {
		for _, s := range st.stops {
			if len(st.stack) == s.depth && s.header == to {
				*s.back = append(*s.back, st)
				return nil
			}
		}
		if f.cut[to] {
			// the invariant was proved inductive when the loop was cut
			ex.loopInv++
			return nil
		}
		f.unrolls[to]++
	} else {
		f.unrolls[to] = 0
		f.cut[to] = false
	}
	if f.pure {
		if f.unrolls[to] > 3000 {
			panic(unsup("specification loop does not terminate"))
		}
		return states(st)
	}
	if f.unrolls[to] < 1200 && ex.flagOf(f, to, li) == nil && ex.concreteHead(st, to) {
		return states(st)
	}
	if u := ex.opts.unroll; u > 0 {
		if f.unrolls[to] >= u {
			ex.bounded[fmt.Sprintf("%s loop at %s: first %d iterations", f.fn.String(), ex.loopPos(to), u)] = true
			return nil
		}
		return states(st)
	}
	return ex.cutLoop(st, f, to, li)
}

func (ex *Exec) loopPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return ex.pos(in.Pos())
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return ex.pos(in.Pos())
			}
		}
	}
	return "-"
}

// concreteHead: the header's branch condition evaluates to a constant.
func (ex *Exec) concreteHead(st *State, h *ssa.BasicBlock) bool {
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if len(h.Instrs) > 12 {
		return false
	}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
		case *ssa.UnOp:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	s := st.clone()
	s.noObl = true
	depth := len(s.stack)
	for k := 0; k < 16; k++ {
		if s.isPan || len(s.stack) != depth {
			return false
		}
		f := s.top()
		if f.blk.Instrs[f.ip] == last {
			t, ok := ex.get(s, last.Cond).(*Term)
			return ok && (t == ex.tb.tru || t == ex.tb.fls || s.pcset[t] || s.pcset[ex.tb.Not(t)])
		}
		if u, ok := f.blk.Instrs[f.ip].(*ssa.UnOp); ok && u.Op.String() == "<-" {
			return false
		}
		succ := ex.step(s)
		if len(succ) != 1 {
			return false
		}
		s = succ[0]
	}
	return false
}

// ---- cutting ----

// valLeaves lists the scalar components of a value.
func valLeaves(v Val, f func(t *Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *PtrV:
		f(x.loc.a)
		if x.loc.i != nil {
			f(x.loc.i)
		}
	case *RefV:
		f(x.t)
	case *SliceV:
		f(x.arr)
		f(x.off)
		f(x.len)
		f(x.cap)
	case *IfaceV:
		f(x.tag)
		if x.typ == nil {
			f(x.val.(*Term))
		} else {
			valLeaves(x.val, f)
		}
	case *StructV:
		for _, e := range x.fs {
			valLeaves(e, f)
		}
	case *ArrayV:
		for _, e := range x.es {
			valLeaves(e, f)
		}
	case *TupleV:
		for _, e := range x.vs {
			valLeaves(e, f)
		}
	case *FuncV:
		if x.t != nil {
			f(x.t)
		}
	}
}

// pseudo is a loop variable: a phi component or a scalar heap cell.
type pseudo struct {
	shift bool // hidden counter of a range loop: the element visited is counter+1
	name  string
	get   func(st *State) *Term
	e     *Term // value at entry
	v     *Term // havocked value (set per round)
	isRef bool
	at    bool // progress flag vhit or vnew of object obj
	key   string
	obj   *Term
}

type cand struct {
	name string
	f    func(st *State) *Term // the candidate evaluated in a header state
}

func phiLeaves(st *State, p *ssa.Phi) []*Term {
	var out []*Term
	valLeaves(st.top().regs[p], func(t *Term) { out = append(out, t) })
	return out
}

// hasNew tells whether t mentions a symbol created after the loop was cut.
func (c *cutCtx) hasNew(t *Term) bool { return c.hasNewM(t, map[*Term]bool{}) }

func (c *cutCtx) hasNewM(t *Term, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	if t.isConst() {
		r = t.k.Sign() < 0 && t.k.IsInt64() && t.k.Int64() < -int64(c.nalloc) && t.k.Int64() > -100000000
	} else if t.op == "app" && t.id >= c.lim {
		if len(t.args) == 0 {
			r = true
		} else if j := strings.LastIndex(t.name, "@"); j >= 0 {
			ver := t.name[j+1:]
			if d := strings.IndexByte(ver, '.'); d >= 0 {
				ver = ver[:d]
			}
			n, ok := new(big.Int).SetString(ver, 10)
			if !ok || n.Int64() > int64(c.verlim) {
				r = true
			}
		}
	}
	if !r {
		for _, a := range t.args {
			if c.hasNewM(a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

type cutCtx struct {
	ex     *Exec
	f      *Frame
	header *ssa.BasicBlock
	li     *loopInfo
	entry  *State
	w      map[string]map[*Term]bool
	gh     map[string]bool
	phis   []*ssa.Phi
	lim    int
	nalloc int
	verlim int
}

// fresh builds an arbitrary header state: everything the loop may change is unconstrained.
func (c *cutCtx) fresh() *State {
	ex := c.ex
	st := c.entry.clone()
	st.nalloc += 1000
	ver := ex.freshVer(st)
	f := st.top()
	for _, p := range c.phis {
		f.regs[p] = ex.havocLike(st, f.regs[p], p.Type(), p.Name(), ver)
		c.rangeBounds(st, f, p)
	}
	var keys []string
	for k := range c.w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := c.w[k]
		if as[nil] {
			ex.noteWrite(st, k, nil)
			st.heap.m[k] = &Node{kind: NHavocAll, ver: ver}
			continue
		}
		var ts []*Term
		for a := range as {
			ts = append(ts, a)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		for _, a := range ts {
			ex.noteWrite(st, k, a)
			st.heap.m[k] = &Node{kind: NHavocObj, prev: ex.node(st, k), a: a, ver: ver}
		}
	}
	for k := range c.gh {
		st.ghost[k] = ex.tb.Fresh("gh", SInt, new(big.Int), nil)
	}
	st.cutTaint = true
	return st
}

// rangeBounds: the hidden counter of a range loop over a slice or array stays within -1..len-1 (language semantics).
func (c *cutCtx) rangeBounds(st *State, f *Frame, p *ssa.Phi) {
	t, ok := f.regs[p].(*Term)
	if !ok || p.Comment != "rangeindex" {
		return
	}
	tb := c.ex.tb
	st.assume(tb.Ge(t, tb.Int(-1)))
	for _, r := range *p.Referrers() {
		inc, ok := r.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD || inc.Block() != c.header {
			continue
		}
		for _, q := range *inc.Referrers() {
			cmp, ok := q.(*ssa.BinOp)
			if !ok || cmp.Op != token.LSS || cmp.Block() != c.header || cmp.X != ssa.Value(inc) {
				continue
			}
			if n, ok := c.ex.peek(st, cmp.Y); ok {
				st.assume(tb.Lt(t, n))
			}
		}
	}
}

func (ex *Exec) peek(st *State, v ssa.Value) (t *Term, ok bool) {
	defer func() {
		if recover() != nil {
			t, ok = nil, false
		}
	}()
	t, ok = ex.get(st, v).(*Term)
	return
}

// havocLike makes an unconstrained value of the same shape.
func (ex *Exec) havocLike(st *State, old Val, t types.Type, name, ver string) Val {
	if _, ok := old.(*RangeV); ok {
		return old
	}
	v := ex.freshVal(st, "phi_"+name, t, ver)
	// snapshots and provenance stay only if unchanged, which is not known: dropped
	return v
}

// runBody runs the loop body once from the header state and returns the states at the back edges.
func (c *cutCtx) runBody(st *State, w *wlog) []*State {
	ex := c.ex
	var back []*State
	if w != nil {
		st.wlogs = append(append([]*wlog(nil), st.wlogs...), w)
	}
	st.stops = append(append([]*stopCtx(nil), st.stops...), &stopCtx{depth: len(st.stack), header: c.header, blocks: c.li.blocks, back: &back})
	work := []*State{st}
	cnt := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			cnt++
			if cnt > 200000 {
				panic(unsup("loop body too large"))
			}
			nerr := len(ex.errs)
			succ, ok := ex.safeStep(s)
			if len(ex.errs) > nerr {
				m := ex.errs[nerr]
				ex.errs = ex.errs[:nerr]
				panic(unsup("in loop body: " + m))
			}
			if !ok || len(succ) == 0 {
				break
			}
			work = append(work, succ[1:]...)
			s = succ[0]
			if len(s.stack) < len(c.entry.stack) {
				break
			}
		}
	}
	return back
}

func (ex *Exec) cutLoop(st *State, f *Frame, header *ssa.BasicBlock, li *loopInfo) []*State {
	tb := ex.tb
	ex.infer++
	c := &cutCtx{ex: ex, f: f, header: header, li: li, entry: st, w: map[string]map[*Term]bool{}, gh: map[string]bool{}, lim: tb.next + 1, nalloc: st.nalloc, verlim: ex.nver}
	for _, in := range header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		c.phis = append(c.phis, p)
	}
	var backs []*State
	var h *State
	defer func() { ex.infer-- }()
	// frame: fixpoint of the write set
	for round := 0; ; round++ {
		if round > 8 {
			panic(unsup("loop frame does not stabilise"))
		}
		h = c.fresh()
		w := &wlog{keys: map[string]map[*Term]bool{}}
		backs = c.runBody(h.clone(), w)
		changed := false
		memo := map[*Term]bool{}
		for k, as := range w.keys {
			for a := range as {
				var t *Term = a
				if a != nil {
					if a.isConst() && a.k.Sign() < 0 && a.k.IsInt64() && a.k.Int64() < -int64(c.nalloc) {
						continue // allocated by this iteration
					}
					if c.hasNewM(a, memo) {
						t = nil
					}
				}
				if c.w[k] == nil {
					c.w[k] = map[*Term]bool{}
				}
				if !c.w[k][t] && !c.w[k][nil] {
					c.w[k][t] = true
					changed = true
				}
			}
		}
		for _, b := range backs {
			for k, v := range b.ghost {
				if k == "$ret" {
					continue
				}
				if _, isT := v.(*Term); isT && h.ghost[k] != v && !c.gh[k] {
					c.gh[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	for _, b := range backs {
		if len(b.locks) != len(st.locks) {
			ex.infer--
			ex.oblig(st, "C19.loop-keeps-locks", "lock", ex.loopPos(header), tb.fls, "a lock is taken or released in an iteration of the loop at "+ex.loopPos(header))
			ex.infer++
			return nil
		}
	}
	// candidates
	ps := c.pseudos(h)
	cands := c.candidates(h, ps, backs)
	if ex.opts.debugLoops {
		for _, b := range backs {
			var l []string
			for _, t := range b.pcs() {
				if !st.pcset[t] {
					l = append(l, t.String())
				}
			}
			fmt.Println("  back:", l)
		}
		for _, cd := range cands {
			fmt.Print(" ", cd.name)
		}
		fmt.Println()
	}
	// base: must hold on entry
	var live []cand
	live = ex.impliedCands(st, cands)
	// inductive
	for round := 0; ; round++ {
		h = c.fresh()
		for _, cd := range live {
			if t := safeEval(cd, h); t != nil {
				h.assume(t)
			}
		}
		backs = c.runBody(h.clone(), nil)
		keep := live
		for _, b := range backs {
			keep = ex.impliedCands(b, keep)
		}
		if len(keep) == len(live) {
			break
		}
		live = keep
		if round > 12 {
			live = nil
		}
	}
	h = c.fresh()
	for _, cd := range live {
		if t := safeEval(cd, h); t != nil {
			h.assume(t)
		}
	}
	if ex.opts.debugLoops {
		fmt.Printf("loop %s in %s: w=%d back=%d live:", ex.loopPos(header), f.fn, len(c.w), len(backs))
		for _, cd := range live {
			fmt.Printf(" [%s]", cd.name)
		}
		fmt.Println()
	}
	g := h.top()
	g.cut = map[*ssa.BasicBlock]bool{}
	for k, v := range f.cut {
		g.cut[k] = v
	}
	g.cut[header] = true
	h.trace = append(h.trace, "loop at "+ex.loopPos(header)+" cut with invariants")
	ex.nloops++
	return states(h)
}

// impliedCands keeps the candidates that certainly hold in the state.
func (ex *Exec) impliedCands(st *State, cands []cand) []cand {
	ok := make([]bool, len(cands))
	var wg sync.WaitGroup
	for i, cd := range cands {
		t := safeEval(cd, st)
		if t == nil || t == ex.tb.fls {
			continue
		}
		if t == ex.tb.tru || st.pcset[t] {
			ok[i] = true
			continue
		}
		nt := ex.tb.Not(t)
		ex.nq++
		as := append(st.pcs(), nt)
		if strings.HasPrefix(cd.name, "scan") {
			as = scanOnly(as)
		}
		q := ex.tb.BuildQuery(as, st.cands)
		asyncSem <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-asyncSem; wg.Done() }()
			ms := 1500
			if strings.HasPrefix(cands[i].name, "scan") {
				ms = 20000
			}
			r, _ := q.decide(ms, false)
			ok[i] = r == Unsat
			if d := os.Getenv("GOVER_CAND"); d != "" && r != Unsat && strings.HasPrefix(cands[i].name, d) {
				fmt.Println("  candidate", cands[i].name, "not kept:", r)
				os.WriteFile("/tmp/cand.smt2", []byte(q.text), 0o644)
			}
		}(i)
	}
	wg.Wait()
	var out []cand
	for i, cd := range cands {
		if ok[i] {
			out = append(out, cd)
		}
	}
	return out
}

func safeEval(c cand, st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st)
}

func (c *cutCtx) pseudos(h *State) []*pseudo {
	var ps []*pseudo
	tb := c.ex.tb
	for _, p := range c.phis {
		p := p
		hl := phiLeaves(h, p)
		el := phiLeaves(c.entry, p)
		_, isI := c.entry.top().regs[p].(*IfaceV)
		if len(hl) != len(el) {
			continue
		}
		for j := range hl {
			j := j
			_, _, isInt := intInfo(p.Type())
			ref := !isInt
			if _, ok := h.top().regs[p].(*SliceV); ok && j > 0 {
				ref = false
			}
			ps = append(ps, &pseudo{name: fmt.Sprintf("%s.%d", p.Name(), j), isRef: ref, shift: p.Comment == "rangeindex", e: el[j], v: hl[j], get: func(st *State) *Term {
				l := phiLeaves(st, p)
				if isI && len(l) > 2 {
					return nil
				}
				if j >= len(l) {
					return nil
				}
				return l[j]
			}})
		}
	}
	var keys []string
	for k := range c.w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if c.w[k][nil] {
			continue
		}
		t := c.ex.keyT[k]
		if t == nil || !isLeaf(t) || strings.HasSuffix(k, "[]") || strings.HasPrefix(k, "[]") || strings.Contains(k, "#has") || strings.Contains(k, "#val") || strings.Contains(k, "#seen") || strings.HasPrefix(k, "chan#buf") {
			continue
		}
		for a := range c.w[k] {
			a, k := a, k
			rd := func(st *State) []*Term {
				var l []*Term
				func() {
					defer func() {
						if r := recover(); r != nil {
							l = nil
						}
					}()
					valLeaves(c.ex.readLeaf(st.heap, k, t, a, nil), func(x *Term) { l = append(l, x) })
				}()
				return l
			}
			el, hl := rd(c.entry), rd(h)
			if len(el) != len(hl) {
				continue
			}
			_, _, isInt := intInfo(t)
			_, isSl := t.Underlying().(*types.Slice)
			for j := range el {
				j := j
				ps = append(ps, &pseudo{at: strings.HasSuffix(k, ".vhit") || strings.HasSuffix(k, ".vnew"), key: k, obj: a, name: fmt.Sprintf("%s@%d.%d", k, a.id, j), isRef: !isInt && !(isSl && j > 0), e: el[j], v: hl[j], get: func(st *State) *Term {
					l := rd(st)
					if j >= len(l) {
						return nil
					}
					return l[j]
				}})
			}
		}
	}
	var gs []string
	for k := range c.gh {
		gs = append(gs, k)
	}
	sort.Strings(gs)
	for _, k := range gs {
		k := k
		e, ok := c.entry.ghost[k].(*Term)
		if !ok {
			e = tb.zero
		}
		ps = append(ps, &pseudo{name: k, e: e, v: h.ghost[k].(*Term), get: func(st *State) *Term {
			t, ok := st.ghost[k].(*Term)
			if !ok {
				return tb.zero
			}
			return t
		}})
	}
	return ps
}

func (c *cutCtx) candidates(h *State, ps []*pseudo, backs []*State) []cand {
	ex := c.ex
	tb := ex.tb
	var out []cand
	seen := map[string]bool{}
	add := func(name string, f func(st *State) *Term) {
		if !seen[name] {
			seen[name] = true
			out = append(out, cand{name, f})
		}
	}
	var ints []*pseudo
	for _, p := range ps {
		p := p
		add(p.name+"==entry", func(st *State) *Term {
			v := p.get(st)
			if v == nil || v.sort != p.e.sort {
				return nil
			}
			return tb.Eq(v, p.e)
		})
		if p.e.sort == SBool && p.v.sort == SBool && p.e != tb.tru && p.e != tb.fls {
			add(p.name+"=>entry", func(st *State) *Term { return tb.Imp(p.get(st), p.e) })
			add(p.name+"<=entry", func(st *State) *Term { return tb.Imp(p.e, p.get(st)) })
		}
		if p.e.sort != SInt || p.isRef {
			continue
		}
		ints = append(ints, p)
		add(p.name+">=entry", func(st *State) *Term { return tb.Ge(p.get(st), p.e) })
		add(p.name+"<=entry", func(st *State) *Term { return tb.Le(p.get(st), p.e) })
		add(p.name+">=0", func(st *State) *Term { return tb.Ge(p.get(st), tb.zero) })
		add(p.name+"%2", func(st *State) *Term {
			return tb.Eq(tb.Mod(tb.Sub(p.get(st), p.e), big.NewInt(2)), tb.zero)
		})
	}
	for i, p := range ints {
		for j, q := range ints {
			p, q := p, q
			if i < j {
				add(p.name+"-"+q.name, func(st *State) *Term { return tb.Eq(tb.Sub(p.get(st), q.get(st)), tb.Sub(p.e, q.e)) })
				add(p.name+"+"+q.name, func(st *State) *Term { return tb.Eq(tb.Add(p.get(st), q.get(st)), tb.Add(p.e, q.e)) })
			}
			if i != j {
				two := tb.Int(2)
				add(p.name+"-2"+q.name, func(st *State) *Term {
					return tb.Eq(tb.Sub(p.get(st), tb.Mul(two, q.get(st))), tb.Sub(p.e, tb.Mul(two, q.e)))
				})
				add(p.name+"<="+q.name, func(st *State) *Term { return tb.Le(p.get(st), q.get(st)) })
			}
		}
	}
	// progress flags of contract files: fields vhit and vnew of an object whose field vat is the position
	// of interest
	for _, p := range ps {
		if !p.at {
			continue
		}
		for _, q := range ints {
			p, q := p, q
			at := func(st *State) *Term {
				return ex.readLeaf(st.heap, p.key[:strings.LastIndex(p.key, ".")]+".vat", types.Typ[types.Int], p.obj, nil).(*Term)
			}
			for d := int64(-1); d <= 1; d++ {
				d := d
				add(fmt.Sprintf("%s|%s<=at%+d", p.name, q.name, d), func(st *State) *Term { return tb.Or(p.get(st), tb.Le(q.get(st), tb.AddC(at(st), d))) })
				add(fmt.Sprintf("%s|%s>=at%+d", p.name, q.name, d), func(st *State) *Term { return tb.Or(p.get(st), tb.Ge(q.get(st), tb.AddC(at(st), d))) })
			}
		}
	}
	// literals of the loop body's path conditions
	base := map[*Term]bool{}
	for t := range c.entry.pcset {
		base[t] = true
	}
	isHav := map[*Term]*pseudo{}
	for _, p := range ps {
		isHav[p.v] = p
	}
	type bl struct{ lits []*Term }
	var bls []bl
	for _, b := range backs {
		var l []*Term
		for _, t := range b.pcs() {
			if !base[t] {
				l = append(l, t)
			}
		}
		bls = append(bls, bl{l})
	}
	occ := func(t, x *Term) bool { return tb.occurs(x, t) }
	onlyVar := func(t *Term, v *Term) bool {
		// t mentions no new symbol but v
		s := tb.Subst(t, v, tb.zero)
		return !c.hasNew(s)
	}
	// bounds
	for _, p := range ints {
		p := p
		for _, b := range bls {
			for _, t := range b.lits {
				if t.op != "le" && !(t.op == "not" && t.args[0].op == "le") && t.op != "eq" && !(t.op == "not" && t.args[0].op == "eq") {
					continue
				}
				x := t
				if x.op == "not" {
					x = x.args[0]
				}
				var l *Term
				if x.op == "le" {
					l = x.args[0]
				} else {
					if x.args[0].sort != SInt {
						continue
					}
					l = tb.Sub(x.args[0], x.args[1])
				}
				k, atoms, cs := tb.linParts(l)
				_ = k
				ci := -1
				for j, a := range atoms {
					if a == p.v {
						ci = j
					}
				}
				if ci < 0 || cs[ci].CmpAbs(bigOne) != 0 {
					continue
				}
				rest := tb.Sub(l, tb.Mul(tb.Big(cs[ci]), p.v))
				if c.hasNew(rest) {
					continue
				}
				// p*cs + rest <= 0 : p <= -rest (cs=1) or p >= rest (cs=-1)
				bd := tb.Neg(rest)
				if cs[ci].Sign() < 0 {
					bd = rest
				}
				for d := int64(-1); d <= 2; d++ {
					d := d
					add(fmt.Sprintf("%s<=b%d%+d", p.name, bd.id, d), func(st *State) *Term { return tb.Le(p.get(st), tb.AddC(bd, d)) })
					add(fmt.Sprintf("%s>=b%d%+d", p.name, bd.id, d), func(st *State) *Term { return tb.Ge(p.get(st), tb.AddC(bd, d)) })
				}
			}
		}
	}
	// generalised path conditions: they held for every earlier iteration
	for _, p := range ints {
		p := p
		bv := tb.BV("int", 90)
		rngUp := func(st *State) *Term { return tb.And(tb.Le(p.e, bv), tb.Lt(bv, p.get(st))) }
		at := bv
		if p.shift {
			at = tb.AddC(bv, -1)
			rngUp = func(st *State) *Term { return tb.And(tb.Lt(p.e, bv), tb.Le(bv, p.get(st))) }
		}
		rngDn := func(st *State) *Term { return tb.And(tb.Lt(p.get(st), bv), tb.Le(bv, p.e)) }
		mk := func(name string, body *Term) {
			if body == tb.tru || body.bvs {
				return
			}
			g := tb.Subst(body, p.v, at)
			add(name+"^", func(st *State) *Term { return tb.Forall("int", bv, tb.Imp(rngUp(st), g)) })
			if p.shift {
				return
			}
			add(name+"v", func(st *State) *Term { return tb.Forall("int", bv, tb.Imp(rngDn(st), g)) })
			if p.e.isConst() {
				add(name+"2^", func(st *State) *Term {
					return tb.Forall("int", bv, tb.Imp(tb.And(rngUp(st), tb.Eq(tb.Mod(tb.Sub(bv, p.e), big.NewInt(2)), tb.zero)), g))
				})
			}
		}
		var ds []*Term
		for _, b := range bls {
			var cs []*Term
			for _, t := range b.lits {
				if occ(t, p.v) && onlyVar(t, p.v) && !isBoundLit(tb, t, p.v) {
					cs = append(cs, t)
					if len(bls) == 1 {
						mk(fmt.Sprintf("all%s:%d", p.name, t.id), t)
					}
				}
			}
			ds = append(ds, tb.And(cs...))
		}
		if len(ds) > 1 && len(ds) < 30 {
			d := tb.Or(ds...)
			if d != tb.tru {
				mk(fmt.Sprintf("allD%s:%d", p.name, d.id), d)
				if d.op == "and" {
					for _, t := range d.args {
						mk(fmt.Sprintf("allD%s:%d", p.name, t.id), t)
					}
				}
			}
		}
		// accumulated answers: a flag keeps its value exactly as long as every element passes
		for _, q := range ps {
			if q.e.sort != SBool || q.v.sort != SBool {
				continue
			}
			q := q
			for _, keep := range []*Term{tb.tru, tb.fls} {
				keep := keep
				is := func(t *Term) *Term {
					if keep == tb.tru {
						return t
					}
					return tb.Not(t)
				}
				var ds []*Term
				for i, b := range backs {
					v := q.get(b)
					if v == nil {
						ds = nil
						break
					}
					v = is(tb.Subst(v, q.v, keep))
					if !onlyVar(v, p.v) {
						continue
					}
					cs := []*Term{v}
					for _, t := range bls[i].lits {
						t = tb.Subst(t, q.v, keep)
						if t == tb.fls || occ(t, p.v) && onlyVar(t, p.v) && !isBoundLit(tb, t, p.v) {
							cs = append(cs, t)
						}
					}
					if d := tb.And(cs...); d != tb.fls {
						ds = append(ds, d)
					}
				}
				d := tb.Or(ds...)
				if len(ds) == 0 || d == tb.tru || d == tb.fls || d.bvs || !occ(d, p.v) {
					continue
				}
				g := tb.Subst(d, p.v, at)
				for _, up := range []bool{true, false} {
					up := up
					rng := rngUp
					if !up {
						rng = rngDn
						if p.shift {
							continue
						}
					}
					all := func(st *State) *Term { return tb.Forall("int", bv, tb.Imp(rng(st), g)) }
					name := fmt.Sprintf("acc%s:%s:%d:%v", q.name, p.name, d.id, up)
					add(name+":all", func(st *State) *Term { return tb.Imp(is(q.get(st)), all(st)) })
					add(name+":some", func(st *State) *Term { return tb.Or(is(q.get(st)), tb.Not(is(q.e)), tb.Not(all(st))) })
				}
			}
		}
		// stored values
		if len(backs) > 0 {
			for k := range c.w {
				k := k
				t := ex.keyT[k]
				if t == nil || !isLeaf(t) {
					continue
				}
				for _, b := range backs {
					n := b.heap.m[k]
					for depth := 0; n != nil && depth < 4 && n.kind == NStore; n, depth = n.prev, depth+1 {
						if n.i == nil {
							continue
						}
						vt, ok := n.val.(*Term)
						if !ok || vt.sort == SBool && false {
							continue
						}
						if !onlyVar(n.a, p.v) || occ(n.a, p.v) || !onlyVar(n.i, p.v) || !occ(n.i, p.v) || !onlyVar(vt, p.v) {
							continue
						}
						ni := tb.Subst(n.i, p.v, at)
						nv := tb.Subst(vt, p.v, at)
						a := n.a
						for _, up := range []bool{true, false} {
							up := up
							for _, par := range []bool{false, true} {
								par := par
								add(fmt.Sprintf("st%s:%s:%d:%d:%d:%v:%v", p.name, k, a.id, n.i.id, vt.id, up, par), func(st *State) *Term {
									rd, ok := ex.readLeaf(st.heap, k, t, a, ni).(*Term)
									if !ok {
										return nil
									}
									g := rngUp(st)
									if !up {
										g = rngDn(st)
									}
									if par {
										g = tb.And(g, tb.Eq(tb.Mod(tb.Sub(bv, p.e), big.NewInt(2)), tb.zero))
									}
									return tb.Forall("int", bv, tb.Imp(g, tb.Eq(rd, nv)))
								})
							}
						}
					}
				}
			}
		}
	}
	out = append(out, c.copyCands(ints, backs)...)
	out = append(out, c.scanCands(ints, backs)...)
	out = append(out, c.mapCands(h, backs)...)
	out = append(out, c.fillCands(ints, backs)...)
	return out
}

// fillCands: maps filled from a sequence, one key per position.
func (c *cutCtx) fillCands(ints []*pseudo, backs []*State) []cand {
	ex := c.ex
	tb := ex.tb
	var out []cand
	seen := map[string]bool{}
	leaves := func(v Val) (l []*Term) {
		defer func() {
			if recover() != nil {
				l = nil
			}
		}()
		valLeaves(v, func(t *Term) { l = append(l, t) })
		return l
	}
	bv := tb.BV("int", 93)
	for k := range c.w {
		k := k
		t := ex.keyT[k]
		has := strings.HasSuffix(k, "#has")
		if t == nil || !isLeaf(t) || !has && !strings.HasSuffix(k, "#val") {
			continue
		}
		for _, b := range backs {
			n := b.heap.m[k]
			for d := 0; n != nil && d < 3 && n.kind == NStore; n, d = n.prev, d+1 {
				n := n
				if n.i == nil || c.hasNew(n.a) {
					continue
				}
				// keys that are not stored stay as they were
				if has {
					for kind, cs := range b.cands {
						if !strings.HasPrefix(kind, "key:") || !strings.HasPrefix(k, "mk|") && !strings.Contains(k, strings.TrimPrefix(kind, "key:")) {
							continue
						}
						for _, x := range cs {
							x := x
							name := fmt.Sprintf("kept:%s:%d:%d", k, n.a.id, x.id)
							if seen[name] || x.bvs || c.hasNew(x) {
								continue
							}
							seen[name] = true
							e := ex.readLeaf(c.entry.heap, k, t, n.a, x)
							out = append(out, cand{name, func(st *State) *Term {
								a, b := leaves(ex.readLeaf(st.heap, k, t, n.a, x)), leaves(e)
								if len(a) != 1 || len(b) != 1 {
									return nil
								}
								return tb.Eq(a[0], b[0])
							}})
						}
					}
				}
				for _, p := range ints {
					p := p
					at := bv
					if p.shift {
						at = tb.AddC(bv, -1)
					}
					key := tb.Subst(n.i, p.v, at)
					if key == n.i || c.hasNew(key) {
						continue
					}
					var vals []*Term
					ok := true
					for _, v := range leaves(n.val) {
						v = tb.Subst(v, p.v, at)
						ok = ok && !c.hasNew(v)
						vals = append(vals, v)
					}
					if !ok || vals == nil {
						continue
					}
					name := fmt.Sprintf("fill:%s:%d:%d:%s", k, n.a.id, n.i.id, p.name)
					for _, v := range vals {
						name += fmt.Sprint(":", v.id)
					}
					if seen[name] {
						continue
					}
					seen[name] = true
					out = append(out, cand{name, func(st *State) *Term {
						rng := tb.And(tb.Le(p.e, bv), tb.Lt(bv, p.get(st)))
						if p.shift {
							rng = tb.And(tb.Lt(p.e, bv), tb.Le(bv, p.get(st)))
						}
						rd := leaves(ex.readLeaf(st.heap, k, t, n.a, key))
						if len(rd) != len(vals) {
							return nil
						}
						var eqs []*Term
						for i := range rd {
							eqs = append(eqs, tb.Eq(rd[i], vals[i]))
						}
						return tb.Forall("int", bv, tb.Imp(rng, tb.And(eqs...)))
					}})
				}
			}
		}
	}
	return out
}

// copyCands: ranges filled by copying from one object to another, chunk by chunk.
func (c *cutCtx) copyCands(ints []*pseudo, backs []*State) []cand {
	ex := c.ex
	tb := ex.tb
	var out []cand
	seen := map[string]bool{}
	atEntry := func(t *Term) *Term {
		for _, p := range ints {
			t = tb.Subst(t, p.v, p.e)
		}
		return t
	}
	atState := func(t *Term, st *State) *Term {
		var ph []*Term
		for i, p := range ints {
			q := tb.BV("int", 200+i)
			ph = append(ph, q)
			t = tb.Subst(t, p.v, q)
		}
		for i, p := range ints {
			t = tb.Subst(t, ph[i], p.get(st))
		}
		return t
	}
	bv := tb.BV("int", 92)
	for k := range c.w {
		k := k
		t := ex.keyT[k]
		if t == nil || !isLeaf(t) {
			continue
		}
		for _, b := range backs {
			n := b.heap.m[k]
			for depth := 0; n != nil && depth < 4 && (n.kind == NCopy || n.kind == NStore); n, depth = n.prev, depth+1 {
				if n.kind != NCopy || c.hasNew(n.a) || n.sa != nil && c.hasNew(n.sa) || n.sstr != nil && c.hasNew(n.sstr) {
					continue
				}
				n := n
				lo := atEntry(n.i)
				if c.hasNew(lo) || c.hasNew(atEntry(n.soff)) {
					continue
				}
				d := tb.Sub(atEntry(n.soff), lo)
				sid := n.sstr
				if sid == nil {
					sid = n.sa
				}
				name := fmt.Sprintf("copied:%s:%d:%d:%d:%d", k, n.a.id, n.i.id, sid.id, d.id)
				if seen[name] {
					continue
				}
				seen[name] = true
				out = append(out, cand{name, func(st *State) *Term {
					hi := atState(n.i, st)
					rd, ok := ex.readLeaf(st.heap, k, t, n.a, bv).(*Term)
					if !ok {
						return nil
					}
					var sv Val
					if n.sstr != nil {
						sv = ex.strAt(n.sstr, tb.Add(bv, d))
					} else {
						sv = ex.readLeaf(st.heap, n.skey, t, n.sa, tb.Add(bv, d))
					}
					s, ok := sv.(*Term)
					if !ok {
						return nil
					}
					return tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(lo, bv), tb.Lt(bv, hi)), tb.Eq(rd, s)))
				}})
			}
		}
	}
	return out
}

// isBoundLit: a literal that only bounds the variable itself against loop-invariant values.
func isBoundLit(tb *TB, t, v *Term) bool {
	x := t
	if x.op == "not" {
		x = x.args[0]
	}
	if x.op != "le" {
		return false
	}
	_, atoms, _ := tb.linParts(x.args[0])
	for _, a := range atoms {
		if a != v && tb.occurs(v, a) {
			return false
		}
	}
	return true
}

// mapCands: for loops over maps: what the loop recorded about every key seen so far.
func (c *cutCtx) mapCands(h *State, backs []*State) []cand {
	ex := c.ex
	tb := ex.tb
	var out []cand
	var its []*RangeV
	for r, v := range h.top().regs {
		if rv, ok := v.(*RangeV); ok && rv.mp != nil {
			if rg, ok := r.(*ssa.Range); ok && !c.li.blocks[rg.Block()] {
				// iterated by this loop?
				its = append(its, rv)
			}
		}
	}
	sort.Slice(its, func(i, j int) bool { return its[i].iter.id < its[j].iter.id })
	for _, it := range its {
		it := it
		kind := "key:" + typeKey(it.typ.Key())
		bv := tb.BV(kind, 91)
		seen := func(st *State, k *Term) *Term {
			return ex.readLeaf(st.heap, "iter#seen", types.Typ[types.Bool], it.iter, k).(*Term)
		}
		cnt := func(st *State) *Term {
			return ex.load(st, Loc{key: "iter#n", a: it.iter}, types.Typ[types.Int]).(*Term)
		}
		// seen keys are present keys
		out = append(out, cand{"seen=>has", func(st *State) *Term {
			return tb.Forall(kind, bv, tb.Imp(seen(st, bv), ex.mapHasT(st, it.h0, it.typ, it.mp.t, bv)))
		}})
		out = append(out, cand{"n<=len", func(st *State) *Term { return tb.Le(cnt(st), ex.mapLen(st, it.h0, it.typ, it.mp.t)) }})
		// counters moving with the iteration, slices growing with it
		for _, p := range c.pseudos(h) {
			p := p
			if p.e.sort != SInt || p.isRef {
				continue
			}
			out = append(out, cand{p.name + "=n", func(st *State) *Term { return tb.Eq(tb.Sub(p.get(st), p.e), cnt(st)) }})
		}
		// elements stored at position n are seen keys, and vice versa
		for k := range c.w {
			k := k
			t := ex.keyT[k]
			if t == nil || !isLeaf(t) || strings.HasPrefix(k, "iter#") {
				continue
			}
			out = append(out, c.listCands(h, backs, it, k, t, seen)...)
			for _, b := range backs {
				n := b.heap.m[k]
				for d := 0; n != nil && d < 3 && n.kind == NStore; n, d = n.prev, d+1 {
					if n.i == nil {
						continue
					}
					// map copies: stored under the iterated key
					kk := lastSeenKey(b, it)
					if kk != nil && n.i == kk {
						a := n.a
						if c.hasNew(a) {
							continue
						}
						val := n.val
						vt, ok := val.(*Term)
						if ok {
							nv := tb.Subst(vt, kk, bv)
							name := fmt.Sprintf("mapst:%s:%d:%d", k, a.id, vt.id)
							out = append(out, cand{name, func(st *State) *Term {
								rd, ok := ex.readLeaf(st.heap, k, t, a, bv).(*Term)
								if !ok {
									return nil
								}
								return tb.Forall(kind, bv, tb.Imp(seen(st, bv), tb.Eq(rd, nv)))
							}})
							if strings.HasSuffix(k, "#has") {
								out = append(out, cand{name + "conv", func(st *State) *Term {
									rd := ex.readLeaf(st.heap, k, t, a, bv).(*Term)
									return tb.Forall(kind, bv, tb.Imp(rd, seen(st, bv)))
								}})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// listCands: a list of the keys seen so far.
func (c *cutCtx) listCands(h *State, backs []*State, it *RangeV, k string, t types.Type, seen func(*State, *Term) *Term) []cand {
	ex := c.ex
	tb := ex.tb
	var ints, refs []*pseudo
	for _, p := range c.pseudos(h) {
		if p.e.sort == SInt && !p.isRef {
			ints = append(ints, p)
		} else if p.e.sort == SInt {
			refs = append(refs, p)
		}
	}
	at := func(t *Term, f func(p *pseudo) *Term) *Term {
		var ph []*Term
		for i, p := range ints {
			ph = append(ph, tb.BV("int", 210+i))
			t = tb.Subst(t, p.v, ph[i])
		}
		for i, p := range ints {
			t = tb.Subst(t, ph[i], f(p))
		}
		return t
	}
	var out []cand
	for _, b := range backs {
		kk := lastSeenKey(b, it)
		if kk == nil {
			continue
		}
		n := b.heap.m[k]
		for d := 0; n != nil && d < 3 && n.kind == NStore; n, d = n.prev, d+1 {
			if n.i == nil {
				continue
			}
			n := n
			arr := func(*State) *Term { return n.a }
			if c.hasNew(n.a) {
				// a list that may have been replaced on the way (append)
				arr = nil
				for _, p := range refs {
					if p.v == n.a {
						arr = p.get
					}
				}
				if arr == nil {
					continue
				}
			}
			lo := at(n.i, func(p *pseudo) *Term { return p.e })
			if c.hasNew(lo) {
				continue
			}
			var tag *Term
			if iv, ok := n.val.(*IfaceV); ok {
				if tag = iv.tag; c.hasNew(tag) {
					continue
				}
			}
			if elemTerm(n.val) != kk {
				continue
			}
			in := func(st *State, x *Term) *Term {
				hi := at(n.i, func(p *pseudo) *Term { return p.get(st) })
				return tb.And(tb.Le(lo, x), tb.Lt(x, hi))
			}
			rd := func(st *State, i *Term) (*Term, *Term) {
				v := ex.readLeaf(st.heap, k, t, arr(st), i)
				if iv, ok := v.(*IfaceV); ok {
					return elemTerm(v), iv.tag
				}
				return elemTerm(v), nil
			}
			x, y := tb.BV("int", 94), tb.BV("int", 95)
			name := fmt.Sprintf("list:%s:%d:%d", k, n.a.id, n.i.id)
			if tag != nil {
				out = append(out, cand{name + "tag", func(st *State) *Term {
					_, g := rd(st, x)
					return tb.Forall("int", x, tb.Imp(in(st, x), tb.Eq(g, tag)))
				}})
			}
			out = append(out, cand{name + "seen", func(st *State) *Term {
				e, _ := rd(st, x)
				if e == nil {
					return nil
				}
				return tb.Forall("int", x, tb.Imp(in(st, x), seen(st, e)))
			}})
			out = append(out, cand{name + "distinct", func(st *State) *Term {
				e, _ := rd(st, x)
				f, _ := rd(st, y)
				if e == nil || f == nil {
					return nil
				}
				return tb.Forall("int", x, tb.Forall("int", y, tb.Imp(tb.And(in(st, x), in(st, y), tb.Lt(x, y)), tb.Not(tb.Eq(e, f)))))
			}})
		}
	}
	return out
}

// elemTerm is the term that identifies a pointer, number or string, also inside an interface value.
func elemTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *PtrV:
		if v.loc.i == nil {
			return v.loc.a
		}
	case *IfaceV:
		return elemTerm(v.val)
	}
	return nil
}

// lastSeenKey is the key the iteration just visited.
func lastSeenKey(b *State, it *RangeV) *Term {
	n := b.heap.m["iter#seen"]
	for n != nil {
		if n.kind == NStore && n.a == it.iter {
			return n.i
		}
		n = n.prev
	}
	return nil
}
