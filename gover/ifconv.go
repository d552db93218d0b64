package main

// If-conversion of short-circuit expressions in specification code: a && b, a || b become one term
// instead of forking the path.

import (
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var pureVrt = map[string]bool{"Inside": true, "BytesEq": true, "NilBytes": true, "Offset": true, "Forall": true, "Exists": true, "SameRef": true,
	"SameSlice": true, "ChanClosed": true, "ChanLen": true, "IsType": true, "SemHeld": true, "ForallKeys": true, "ForallRefs": true, "Spawned": true,
	"Closes": true, "Sent": true, "ChanCap": true, "Old": true, "LocksHeld": true, "PoolPuts": true, "PoolLast": true, "Snap": true, "Imp": true, "ValidText": true, "Own": true, "HoldsLock": true, "JSONIs": true, "ScanIs": true, "Native": true,
	"Fn1": true, "Fn2": true, "Pred1": true, "Pred2": true, "RVTyp": true, "RVId": true, "RVRole": true, "RefOf": true, "AtRef": true}

type pureInfo struct {
	mu   sync.Mutex
	fns  map[*ssa.Function]int // 1 pure 2 impure 3 in progress
	join map[*ssa.BasicBlock]*ssa.BasicBlock
}

var pureI = &pureInfo{fns: map[*ssa.Function]int{}, join: map[*ssa.BasicBlock]*ssa.BasicBlock{}}

func (l *Loader) pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.Select, *ssa.MakeChan, *ssa.MakeMap, *ssa.Range, *ssa.Next:
		return false
	case *ssa.Store:
		a := x.Addr
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				a = y.X
				continue
			case *ssa.IndexAddr:
				a = y.X
				continue
			}
			break
		}
		_, ok := a.(*ssa.Alloc)
		return ok
	case *ssa.UnOp:
		return x.Op.String() != "<-"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		c := x.Call.StaticCallee()
		if c == nil {
			return false
		}
		o := c
		if c.Origin() != nil {
			o = c.Origin()
		}
		if o.Package() != nil && o.Package().Pkg.Path() == vrtPath {
			return pureVrt[o.Name()]
		}
		return l.pureFn(c)
	}
	return true
}

func (l *Loader) pureFn(fn *ssa.Function) bool {
	switch pureI.fns[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	pureI.fns[fn] = 3
	ok := l.isSpec(fn) && len(fn.Blocks) > 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ok && !l.pureInstr(in) {
				ok = false
			}
		}
	}
	if ok {
		pureI.fns[fn] = 1
	} else {
		pureI.fns[fn] = 2
	}
	return ok
}

// joinOf is the block where the short-circuit expression starting at b ends, or nil.
func (l *Loader) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	pureI.mu.Lock()
	defer pureI.mu.Unlock()
	if d, ok := pureI.join[b]; ok {
		return d
	}
	d := l.findJoin(b)
	pureI.join[b] = d
	return d
}

func isShort(c string) bool {
	return strings.HasPrefix(c, "binop.") || strings.HasPrefix(c, "cond.")
}

func (l *Loader) findJoin(b *ssa.BasicBlock) *ssa.BasicBlock {
	// smallest region of short-circuit blocks that reconverges in one block named binop.done
	var best *ssa.BasicBlock
	for _, d := range b.Parent().Blocks {
		if d.Comment != "binop.done" || d == b || !b.Dominates(d) {
			continue
		}
		seen := map[*ssa.BasicBlock]bool{}
		ok := true
		var walk func(x *ssa.BasicBlock)
		walk = func(x *ssa.BasicBlock) {
			if x == d || seen[x] || !ok {
				return
			}
			if x == b || !isShort(x.Comment) || len(x.Succs) == 0 {
				ok = false
				return
			}
			seen[x] = true
			for _, in := range x.Instrs {
				if !l.pureInstr(in) {
					ok = false
					return
				}
			}
			for _, s := range x.Succs {
				walk(s)
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
		if !ok {
			continue
		}
		for _, p := range d.Preds {
			if p != b && !seen[p] {
				ok = false
			}
		}
		if ok && (best == nil || d.Dominates(best)) {
			best = d
		}
	}
	return best
}

// shortCircuit evaluates the region from the If at the end of the current block up to join d.
func (ex *Exec) shortCircuit(st *State, d *ssa.BasicBlock) []*State {
	tb := ex.tb
	sub := st.clone()
	sub.frames0 = len(sub.stack) - 1
	sub.noObl = true
	sub.pureEval = true
	sub.stops = nil
	base := sub.npc
	depth := len(sub.stack)
	sub.top().ip-- // execute the If again
	type leaf struct {
		c *Term
		s *State
	}
	var leaves []leaf
	work := []*State{sub}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.isPan {
				break
			}
			if len(s.stack) == depth && s.top().blk == d {
				pcs := s.pcs()
				leaves = append(leaves, leaf{tb.And(pcs[base:]...), s})
				st.takeCands(s)
				break
			}
			succ := ex.step(s)
			if len(succ) == 0 {
				break
			}
			work = append(work, succ[1:]...)
			s = succ[0]
		}
		if len(leaves) > 200 {
			panic(unsup("short-circuit expression too large"))
		}
	}
	if len(leaves) == 0 {
		panic(unsup("short-circuit expression without result"))
	}
	f := st.top()
	n := 0
	for _, in := range d.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals := make([]Val, len(leaves))
		allBool := true
		for i, l := range leaves {
			vals[i] = l.s.top().regs[p]
			if t, ok := vals[i].(*Term); !ok || t.sort != SBool {
				allBool = false
			}
		}
		if allBool {
			var ds []*Term
			for i, l := range leaves {
				ds = append(ds, tb.And(l.c, vals[i].(*Term)))
			}
			f.regs[p] = tb.Or(ds...)
			continue
		}
		v := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			v = ex.mergeVal(leaves[i].c, vals[i], v)
		}
		f.regs[p] = v
	}
	f.blk = d
	f.ip = n
	return states(st)
}
