package main

// Calls: dispatch, contracts at call sites, builtins, specification functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type InvokeV struct {
	recv Val
	m    *types.Func
}

func (ex *Exec) callTarget(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.get(st, a))
	}
	if c.IsInvoke() {
		return &InvokeV{recv: ex.get(st, c.Value), m: c.Method}, args
	}
	return ex.get(st, c.Value), args
}

func (ex *Exec) setRes(st *State, ret ssa.Value, v Val) {
	if ret != nil && len(st.stack) > 0 {
		st.top().regs[ret] = v
	}
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

func (ex *Exec) callVal(st *State, fn Val, args []Val, call *ssa.CallCommon, ret ssa.Value, in ssa.Instruction) []*State {
	switch f := fn.(type) {
	case *MuxV:
		return ex.split(st, fn, func(st *State, v Val) []*State { return ex.callVal(st, v, args, call, ret, in) })
	case *InvokeV:
		return ex.split(st, f.recv, func(st *State, rv Val) []*State {
			r := rv.(*IfaceV)
			pure := st.top().pure
			do := func(st *State) []*State {
				if r.typ == nil {
					return ex.opaqueInvoke(st, r, f.m, args, ret, in)
				}
				m := ex.eng.l.prog.LookupMethod(r.typ, f.m.Pkg(), f.m.Name())
				if m == nil {
					panic(unsup("no method " + f.m.Name() + " on " + r.typ.String()))
				}
				return ex.callVal(st, &FuncV{fn: m}, append([]Val{r.val}, args...), call, ret, in)
			}
			if pure && r.typ != nil {
				return do(st)
			}
			return ex.must(st, ex.tb.Neq(r.tag, ex.tb.zero), "nil-deref", instrPos(in), "method call on nil interface value ("+f.m.Name()+")", do)
		})
	case *FuncV:
		if f.blt != "" {
			if bound, ok := f.blt, f.bind; ok != nil && strings.HasPrefix(bound, "#") {
				return ex.callIntrinsicName(st, bound[1:], append(append([]Val{}, f.bind...), args...), nil, ret, in)
			}
			return ex.builtin(st, f.blt, args, call, ret, in)
		}
		if f.fn == nil {
			return ex.must(st, ex.tb.Neq(f.t, ex.tb.zero), "nil-func", instrPos(in), "call of nil function", func(st *State) []*State {
				return ex.opaqueCall(st, f, args, call, ret, in)
			})
		}
		return ex.callFn(st, f, args, ret, in)
	}
	panic(unsup(fmt.Sprintf("call of %T", fn)))
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callFn(st *State, f *FuncV, args []Val, ret ssa.Value, in ssa.Instruction) []*State {
	fn := f.fn
	name := fnName(fn)
	name = strings.ReplaceAll(name, modPath+"/vendor/", "")
	// external functions modelled by the contract files
	// (for a function of the code under verification: its contract, assumed at the calls the code makes)
	if sf := ex.eng.stubs[fn]; sf != nil && st.ghost["$stubs"] != nil && !(ex.eng.l.isOwn(fn) && st.top().pure) {
		if ex.eng.l.isOwn(fn) {
			ex.trust("contract of " + name + " at calls (" + sf.Name() + "), proved in a unit of its own")
		} else {
			ex.trust("model of " + name + " (" + sf.Name() + ")")
		}
		ex.pushCall(st, sf, args, nil, ret).pure = true
		return states(st)
	}
	if h, ok := ex.eng.intrin[name]; ok {
		return ex.runIntrinsic(st, h, name, fn, args, ret, in)
	}
	// pure specification functions are evaluated to one value
	if ex.eng.l.isSpec(fn) && isPureName(fn) {
		v := ex.evalPure(st, fn, args, f.bind)
		ex.setRes(st, ret, v)
		return states(st)
	}
	// calls of a function under contract use its contract
	if cf := ex.eng.contracts[fn]; cf != nil && !ex.disable[fn] && ex.opts.useContr {
		top := st.top()
		inner := false
		for _, fr := range st.stack {
			if fr.fn == cf {
				inner = true
				if fr == top && fr.contract != nil && fr.contract.use {
					return ex.contractEffect(st, fr, fn, ret)
				}
			}
		}
		if !inner && !top.pure && (!ex.eng.boundary[fn] || fn.Pkg != nil && top.fn.Pkg != fn.Pkg) {
			ex.usedC[fn.String()] = true
			fr := ex.pushCall(st, cf, args, nil, ret)
			fr.contract = &contractFrame{use: true, target: fn}
			fr.pure = true
			return states(st)
		}
	}
	if len(fn.Blocks) == 0 {
		return ex.external(st, fn, args, ret, in)
	}
	ex.pushCall(st, fn, args, f.bind, ret)
	return states(st)
}

func isPureName(fn *ssa.Function) bool {
	n := fn.Name()
	return len(n) > 2 && n[0] == 's' && n[1] == 'p' && n[2] >= 'A' && n[2] <= 'Z' && fn.Signature.Recv() == nil && fn.Parent() == nil
}

// contractEffect replaces the call inside a contract in use mode: havoc the frame, fresh results.
func (ex *Exec) contractEffect(st *State, fr *Frame, fn *ssa.Function, ret ssa.Value) []*State {
	c := fr.contract
	c.called = true
	ver := ex.freshVer(st)
	for _, m := range c.mods {
		if m.rng {
			for _, k := range ex.subKeys(m.loc.key, m.t) {
				ex.noteWrite(st, k, m.loc.a)
				st.heap.m[k] = &Node{kind: NHavocRange, prev: ex.node(st, k), a: m.loc.a, i: m.loc.i, n: m.n, ver: ver}
			}
			continue
		}
		ex.havocLoc(st, m.loc, m.t, ver)
	}
	res := fn.Signature.Results()
	var v Val
	switch res.Len() {
	case 0:
	case 1:
		v = ex.freshVal(st, "r", res.At(0).Type(), ver)
	default:
		v = ex.freshVal(st, "r", res, ver)
	}
	ex.setRes(st, ret, v)
	st.cutTaint = true
	return states(st)
}

func (ex *Exec) subKeys(key string, t types.Type) []string {
	var out []string
	ex.leafKeys(key, t, func(k string, lt types.Type, arr bool) { ex.keyT[k] = lt; out = append(out, k) })
	return out
}

// freshVal is an unconstrained value of type t.
func (ex *Exec) freshVal(st *State, pfx string, t types.Type, ver string) Val {
	tb := ex.tb
	lo0 := big.NewInt(-int64(st.nalloc))
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return tb.Fresh(pfx, SBool, nil, nil)
		}
		if isString(t) {
			return tb.Fresh(pfx, SInt, new(big.Int), nil)
		}
		lo, hi := intRange(t)
		return tb.Fresh(pfx, SInt, lo, hi)
	case *types.Pointer:
		return &PtrV{loc: Loc{key: objKey(u.Elem()), a: tb.Fresh(pfx, SInt, lo0, nil)}}
	case *types.Slice:
		s := &SliceV{mkey: memKey(typeKey(u.Elem())), arr: tb.Fresh(pfx+".arr", SInt, lo0, nil), off: tb.Fresh(pfx+".off", SInt, new(big.Int), maxSz),
			len: tb.Fresh(pfx+".len", SInt, new(big.Int), maxSz), cap: tb.Fresh(pfx+".cap", SInt, new(big.Int), maxSz)}
		ex.sliceFacts(s)
		return s
	case *types.Map, *types.Chan:
		return &RefV{t: tb.Fresh(pfx, SInt, lo0, nil)}
	case *types.Signature:
		return &FuncV{t: tb.Fresh(pfx, SInt, new(big.Int), nil)}
	case *types.Interface:
		return &IfaceV{tag: tb.Fresh(pfx+".tag", SInt, new(big.Int), nil), val: tb.Fresh(pfx+".dat", SInt, lo0, nil)}
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, ex.freshVal(st, pfx+"."+u.Field(i).Name(), u.Field(i).Type(), ver))
		}
		return s
	case *types.Array:
		s := &ArrayV{t: t}
		for i := int64(0); i < u.Len(); i++ {
			s.es = append(s.es, ex.freshVal(st, pfx, u.Elem(), ver))
		}
		return s
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.vs = append(s.vs, ex.freshVal(st, pfx, u.At(i).Type(), ver))
		}
		return s
	}
	panic(unsup("fresh value of " + t.String()))
}

// ---- pure evaluation ----

// pureLeaf is one way a pure function can end.
type pureLeaf struct {
	c *Term
	v Val
}

// evalLeaves evaluates a pure function on all its paths.
func (ex *Exec) evalLeaves(st *State, fn *ssa.Function, args, bind []Val) []pureLeaf {
	tb := ex.tb
	sub := st.clone()
	sub.frames0 = len(sub.stack)
	sub.noObl = true
	sub.pureEval = true
	sub.stops = nil
	sub.isPan = false
	base := sub.npc
	fr := ex.pushCall(sub, fn, args, bind, nil)
	fr.pure = true
	var leaves []pureLeaf
	work := []*State{sub}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.isPan {
				break
			}
			succ := ex.step(s)
			if len(succ) == 0 {
				break
			}
			work = append(work, succ[1:]...)
			s = succ[0]
			if len(s.stack) == s.frames0 {
				pcs := s.pcs()
				leaves = append(leaves, pureLeaf{tb.And(pcs[base:]...), s.ghost["$ret"]})
				st.takeCands(s)
				break
			}
		}
		if len(leaves) > 400 {
			panic(unsup("pure function too large: " + fn.String()))
		}
	}
	if len(leaves) == 0 {
		panic(unsup("pure function has no result: " + fn.String()))
	}
	return leaves
}

func (ex *Exec) evalPure(st *State, fn *ssa.Function, args, bind []Val) Val {
	tb := ex.tb
	leaves := ex.evalLeaves(st, fn, args, bind)
	v := leaves[len(leaves)-1].v
	allBool := true
	for _, l := range leaves {
		if t, ok := l.v.(*Term); !ok || t.sort != SBool {
			allBool = false
		}
	}
	if allBool {
		var ds []*Term
		for _, l := range leaves {
			ds = append(ds, tb.And(l.c, l.v.(*Term)))
		}
		return tb.Or(ds...)
	}
	for j := len(leaves) - 2; j >= 0; j-- {
		v = ex.mergeVal(leaves[j].c, leaves[j].v, v)
	}
	return v
}

func (ex *Exec) evalPureFn(st *State, f Val, args ...Val) Val {
	fv := f.(*FuncV)
	return ex.evalPure(st, fv.fn, args, fv.bind)
}

// quant evaluates a closure body under a fresh bound variable.
func (ex *Exec) quant(st *State, kind string, f Val, guard func(bv *Term) *Term, exists bool, mk func(bv *Term) Val) *Term {
	tb := ex.tb
	bv := tb.BV(kind, ex.qdepth)
	ex.qdepth++
	var arg Val = bv
	if mk != nil {
		arg = mk(bv)
	}
	body := ex.evalPureFn(st, f, arg).(*Term)
	ex.qdepth--
	g := tb.tru
	if guard != nil {
		g = guard(bv)
	}
	if exists {
		return tb.Not(tb.Forall(kind, bv, tb.Not(tb.And(g, body))))
	}
	return tb.Forall(kind, bv, tb.Or(tb.Not(g), body))
}

// ---- externals ----

func (ex *Exec) external(st *State, fn *ssa.Function, args []Val, ret ssa.Value, in ssa.Instruction) []*State {
	name := fn.String()
	if st.top().pure {
		panic(unsup("external call in specification: " + name))
	}
	if !strings.HasSuffix(name, ".init") {
		for _, a := range args {
			switch a.(type) {
			case *Term, *StructV:
			default:
				if p := fn.Package(); p == nil || fn.Signature.Recv() != nil || p.Pkg.Path() != "bytes" && p.Pkg.Path() != "strings" {
					panic(unsup("call of " + name + ", which has no contract"))
				}
			}
		}
		st.ext = true
	}
	ex.assume["external "+name+": result unconstrained, arguments' objects unchanged"] = true
	st.cutTaint = true
	ver := ex.freshVer(st)
	res := fn.Signature.Results()
	var v Val
	switch res.Len() {
	case 0:
	case 1:
		v = ex.freshVal(st, "x", res.At(0).Type(), ver)
	default:
		v = ex.freshVal(st, "x", res, ver)
	}
	ex.setRes(st, ret, v)
	return states(st)
}

func (ex *Exec) opaqueInvoke(st *State, r *IfaceV, m *types.Func, args []Val, ret ssa.Value, in ssa.Instruction) []*State {
	name := "iface." + m.Name()
	if h, ok := ex.eng.intrin[name]; ok {
		return ex.runIntrinsic(st, h, name, nil, append([]Val{r}, args...), ret, in)
	}
	full := m.FullName()
	if h, ok := ex.eng.intrin[full]; ok {
		return ex.runIntrinsic(st, h, full, nil, append([]Val{r}, args...), ret, in)
	}
	ex.assume["interface method "+full+" of an opaque value: result unconstrained, no side effects"] = true
	sig := m.Type().(*types.Signature)
	ver := ex.freshVer(st)
	var v Val
	switch sig.Results().Len() {
	case 0:
	case 1:
		v = ex.freshVal(st, "x", sig.Results().At(0).Type(), ver)
	default:
		v = ex.freshVal(st, "x", sig.Results(), ver)
	}
	ex.setRes(st, ret, v)
	return states(st)
}

func (ex *Exec) opaqueCall(st *State, f *FuncV, args []Val, call *ssa.CallCommon, ret ssa.Value, in ssa.Instruction) []*State {
	ex.assume["call of an unknown function value: result unconstrained, no side effects"] = true
	var sig *types.Signature
	if call != nil {
		sig = call.Signature()
	}
	if sig == nil {
		panic(unsup("opaque call"))
	}
	st.cutTaint = true
	ver := ex.freshVer(st)
	var v Val
	switch sig.Results().Len() {
	case 0:
	case 1:
		v = ex.freshVal(st, "x", sig.Results().At(0).Type(), ver)
	default:
		v = ex.freshVal(st, "x", sig.Results(), ver)
	}
	ex.setRes(st, ret, v)
	return states(st)
}

func (ex *Exec) runIntrinsic(st *State, h Intrinsic, name string, fn *ssa.Function, args []Val, ret ssa.Value, in ssa.Instruction) []*State {
	// unmerge arguments
	for j, a := range args {
		if _, ok := a.(*MuxV); ok {
			return ex.split(st, a, func(st *State, v Val) []*State {
				na := append([]Val{}, args...)
				na[j] = v
				return ex.runIntrinsic(st, h, name, fn, na, ret, in)
			})
		}
	}
	c := &CallCtx{fn: fn, args: args, instr: in, name: name, ret: ret}
	if fn != nil {
		c.sig = fn.Signature
	}
	c.set = func(st *State, v Val) { ex.setRes(st, ret, v) }
	return h(ex, st, c)
}

func (ex *Exec) callIntrinsicName(st *State, name string, args []Val, fn *ssa.Function, ret ssa.Value, in ssa.Instruction) []*State {
	h, ok := ex.eng.intrin[name]
	if !ok {
		panic(unsup("intrinsic " + name))
	}
	return ex.runIntrinsic(st, h, name, fn, args, ret, in)
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, name string, args []Val, call *ssa.CallCommon, ret ssa.Value, in ssa.Instruction) []*State {
	for j, a := range args {
		if _, ok := a.(*MuxV); ok {
			return ex.split(st, a, func(st *State, v Val) []*State {
				na := append([]Val{}, args...)
				na[j] = v
				return ex.builtin(st, name, na, call, ret, in)
			})
		}
	}
	tb := ex.tb
	switch name {
	case "len", "cap":
		var v Val
		switch x := args[0].(type) {
		case *SliceV:
			v = x.len
			if name == "cap" {
				v = x.cap
			}
		case *Term:
			v = ex.strlen(x)
		case *ArrayV:
			v = tb.Int(int64(len(x.es)))
		case *PtrV:
			at := call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			v = tb.Int(at.Len())
		case *RefV:
			switch mt := call.Args[0].Type().Underlying().(type) {
			case *types.Map:
				if !st.top().pure {
					ex.mapAccess(st, x, mt, false, instrPos(in))
				}
				v = ex.mapLen(st, ex.heapOf(st, x.snap), mt, x.t)
			default:
				if name == "cap" {
					v = ex.load(st, Loc{key: "chan#cap", a: x.t}, types.Typ[types.Int])
				} else {
					v = ex.load(st, Loc{key: "chan#n", a: x.t}, types.Typ[types.Int])
				}
			}
		default:
			panic(unsup(fmt.Sprintf("len of %T", args[0])))
		}
		ex.setRes(st, ret, v)
		return states(st)
	case "copy":
		dst := args[0].(*SliceV)
		var n *Term
		switch src := args[1].(type) {
		case *SliceV:
			n = tb.Ite(tb.Le(dst.len, src.len), dst.len, src.len)
			a, b := ex.fork(st, tb.Le(src.len, dst.len))
			var out []*State
			for k, s := range []*State{a, b} {
				if s == nil {
					continue
				}
				n := src.len
				if k == 1 {
					n = dst.len
				}
				ex.copyElems(s, dst.mkey, dst.arr, dst.off, src, n, call.Args[0].Type().Underlying().(*types.Slice).Elem())
				ex.setRes(s, ret, n)
				out = append(out, s)
			}
			return out
		case *Term:
			sl := ex.strlen(src)
			n = tb.Ite(tb.Le(dst.len, sl), dst.len, sl)
			ex.noteWrite(st, dst.mkey, dst.arr)
			st.heap.m[dst.mkey] = &Node{kind: NCopy, prev: ex.node(st, dst.mkey), a: dst.arr, i: dst.off, n: n, soff: tb.zero, sstr: src}
		}
		ex.setRes(st, ret, n)
		return states(st)
	case "append":
		return ex.appendB(st, args, call, ret, in)
	case "delete":
		m := args[0].(*RefV)
		mt := call.Args[0].Type().Underlying().(*types.Map)
		k := ex.keyTerm(st, args[1], mt.Key())
		if !st.top().pure {
			ex.mapAccess(st, m, mt, true, instrPos(in))
		}
		nz, z := ex.fork(st, tb.Neq(m.t, tb.zero))
		if nz != nil {
			ex.mapDelete(nz, m.t, mt, k)
		}
		return states(nz, z)
	case "print", "println":
		return states(st)
	case "close":
		return ex.closeChan(st, args[0].(*RefV), call, in)
	case "recover":
		return ex.recoverB(st, ret)
	case "min", "max":
		v := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			c := tb.Le(v, b)
			if name == "max" {
				c = tb.Le(b, v)
			}
			v = tb.Ite(c, v, b)
		}
		ex.setRes(st, ret, v)
		return states(st)
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		return ex.must(st, tb.Neq(p.loc.a, tb.zero), "nil-deref", instrPos(in), "nil pointer dereference (method wrapper)", func(st *State) []*State {
			ex.setRes(st, ret, p)
			return states(st)
		})
	case "clear":
		panic(unsup("clear"))
	}
	panic(unsup("builtin " + name))
}

func (ex *Exec) copyElems(st *State, mkey string, arr, off *Term, src *SliceV, n *Term, el types.Type) {
	if n == ex.tb.zero {
		return
	}
	h := st.heap
	if src.snap != nil {
		h = src.snap
	}
	var dk, sk []string
	var lts []types.Type
	arrs := false
	ex.leafKeys(mkey, el, func(k string, lt types.Type, arr bool) {
		ex.keyT[k] = lt
		dk, lts, arrs = append(dk, k), append(lts, lt), arrs || arr
	})
	ex.leafKeys(src.mkey, el, func(k string, lt types.Type, _ bool) { ex.keyT[k] = lt; sk = append(sk, k) })
	heads := map[string]*Node{}
	for _, k := range sk {
		heads[k] = h.m[k]
	}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() <= 2 && !arrs {
		// a few elements: plain stores
		vals := make([][]Val, len(dk))
		for j := range dk {
			for i := int64(0); i < n.k.Int64(); i++ {
				vals[j] = append(vals[j], ex.readLeaf(h, sk[j], lts[j], src.arr, ex.tb.AddC(src.off, i)))
			}
		}
		for j := range dk {
			ex.noteWrite(st, dk[j], arr)
			for i, v := range vals[j] {
				st.heap.m[dk[j]] = &Node{kind: NStore, prev: ex.node(st, dk[j]), a: arr, i: ex.tb.AddC(off, int64(i)), val: v}
			}
		}
		return
	}
	for j := range dk {
		ex.noteWrite(st, dk[j], arr)
		st.heap.m[dk[j]] = &Node{kind: NCopy, prev: ex.node(st, dk[j]), a: arr, i: off, n: n, sh: heads[sk[j]], skey: sk[j], sver: h.base, sa: src.arr, soff: src.off}
	}
}

func (ex *Exec) appendB(st *State, args []Val, call *ssa.CallCommon, ret ssa.Value, in ssa.Instruction) []*State {
	tb := ex.tb
	dst := args[0].(*SliceV)
	var el types.Type
	if call != nil {
		el = call.Args[0].Type().Underlying().(*types.Slice).Elem()
	}
	var src *SliceV
	var str *Term
	var n *Term
	switch x := args[1].(type) {
	case *SliceV:
		src = x
		n = x.len
	case *Term:
		str = x
		n = ex.strlen(x)
	}
	if n == tb.zero {
		ex.setRes(st, ret, dst)
		return states(st)
	}
	put := func(s *State, mkey string, arr, off *Term) {
		if src != nil {
			ex.copyElems(s, mkey, arr, off, src, n, el)
		} else {
			ex.noteWrite(s, mkey, arr)
			s.heap.m[mkey] = &Node{kind: NCopy, prev: ex.node(s, mkey), a: arr, i: off, n: n, soff: tb.zero, sstr: str}
		}
	}
	grow := func(s *State) *State {
		if s == nil {
			return nil
		}
		nl := tb.Add(dst.len, n)
		c := tb.Fresh("cap", SInt, new(big.Int), maxSz)
		if s.top().pure {
			c = nl
		} else {
			s.assume(tb.Le(nl, c))
		}
		r := ex.newSlice(s, el, nl, c)
		ex.copyElems(s, r.mkey, r.arr, tb.zero, dst, dst.len, el)
		put(s, r.mkey, r.arr, tb.zero.plus(tb, dst.len))
		ex.setRes(s, ret, r)
		return s
	}
	if st.top().pure || dst.arr == tb.zero {
		return states(grow(st))
	}
	fits, no := ex.fork(st, tb.Le(tb.Add(dst.len, n), dst.cap))
	var out []*State
	if fits != nil {
		put(fits, dst.mkey, dst.arr, tb.Add(dst.off, dst.len))
		ex.setRes(fits, ret, &SliceV{mkey: dst.mkey, arr: dst.arr, off: dst.off, len: tb.Add(dst.len, n), cap: dst.cap})
		out = append(out, fits)
	}
	if no != nil {
		out = append(out, grow(no))
	}
	return out
}

func (t *Term) plus(b *TB, o *Term) *Term { return b.Add(t, o) }

func (ex *Exec) recoverB(st *State, ret ssa.Value) []*State {
	tb := ex.tb
	f := st.top()
	g := f.deferOf
	if g != nil && g.panicking && !g.recovered {
		g.recovered = true
		v := st.panicV
		if v == nil {
			v = &IfaceV{tag: tb.Int(ex.eng.tag("runtime.Error")), val: ex.newRef(st)}
		}
		ex.setRes(st, ret, v)
		return states(st)
	}
	ex.setRes(st, ret, &IfaceV{tag: tb.zero, val: tb.zero})
	return states(st)
}

// goStmt: the spawned call is executed at two representative points, immediately or after the
// harness function has finished (the harness decides how the results may be used).
func (ex *Exec) goStmt(st *State, fn Val, args []Val, call *ssa.CallCommon, in ssa.Instruction) []*State {
	st.ghost["$spawned"] = ex.tb.AddC(ghostInt(ex, st, "$spawned"), 1)
	mode := ""
	if t, ok := st.ghost["$gomode"].(*Term); ok && t.isConst() {
		mode = t.k.String()
	}
	switch mode {
	case "1": // record only
		return states(st)
	}
	later := st.clone()
	later.spawned = append(later.spawned, spawn{fn, args, call})
	later.trace = append(later.trace, "goroutine started at "+ex.pos(instrPos(in))+" runs last")
	st.trace = append(st.trace, "goroutine started at "+ex.pos(instrPos(in))+" runs at once")
	out := []*State{later}
	// own frame so that panics and results stay separate
	return append(out, ex.callVal(st, fn, args, call, nil, in)...)
}

func ghostInt(ex *Exec, st *State, k string) *Term {
	if t, ok := st.ghost[k].(*Term); ok {
		return t
	}
	return ex.tb.zero
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
