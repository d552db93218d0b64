package main

// Intrinsics: the specification vocabulary (package vrt) and the trusted contracts of external functions.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const vrtPath = modPath + "/vrt"

var trustMu sync.Mutex

func (ex *Exec) trust(what string) { ex.assume["trusted: "+what] = true }

func (ex *Exec) labelOf(v Val) string {
	if t, ok := v.(*Term); ok {
		if s, ok := ex.tb.strOf[t]; ok {
			return s
		}
		if t == ex.tb.zero {
			return ""
		}
	}
	panic(unsup("label is not a constant string"))
}

func (c *CallCtx) done(st *State, v Val) []*State {
	if v != nil {
		c.set(st, v)
	}
	return states(st)
}

func (ex *Exec) ndVar(st *State, kind, name string, t types.Type, v Val) Val {
	st.nd = append(st.nd, ndRec{kind: kind, t: t, v: v, name: name, node: ex.node(st, memKey("uint8")), base: st.heap.base})
	return v
}

// errVal is a fresh non-nil error of an unnameable type.
func (ex *Exec) newErr(st *State, kind string) *IfaceV {
	return &IfaceV{tag: ex.tb.Int(ex.eng.tag(kind)), val: ex.newRef(st)}
}

func (ex *Exec) nilIface() *IfaceV { return &IfaceV{tag: ex.tb.zero, val: ex.tb.zero} }

func (ex *Exec) mergeErr(c *Term, a, b *IfaceV) *IfaceV {
	tb := ex.tb
	return &IfaceV{tag: tb.Ite(c, a.tag, b.tag), val: tb.Ite(c, a.val.(*Term), b.val.(*Term))}
}

// freshBytes is an arbitrary byte slice in its own array.
func (ex *Exec) freshBytes(st *State, name string, n *Term) *SliceV {
	tb := ex.tb
	a := ex.newRef(st)
	k := memKey("uint8")
	ex.keyT[k] = types.Typ[types.Uint8]
	st.heap.m[k] = &Node{kind: NHavocObj, prev: ex.node(st, k), a: a, ver: ex.freshVer(st)}
	if n == nil {
		n = tb.Fresh(name+".len", SInt, new(big.Int), maxSz)
	}
	return &SliceV{mkey: k, arr: a, off: tb.zero, len: n, cap: n}
}

func snapIf(v Val, h *Heap) Val {
	if h == nil {
		return v
	}
	return snapVal(v, h)
}

func snapVal(v Val, h *Heap) Val {
	switch x := v.(type) {
	case *PtrV:
		c := *x
		c.loc.snap = h
		return &c
	case *SliceV:
		c := *x
		c.snap = h
		return &c
	case *RefV:
		c := *x
		c.snap = h
		return &c
	case *IfaceV:
		if x.typ != nil {
			c := *x
			c.val = snapVal(x.val, h)
			return &c
		}
	case *StructV:
		c := &StructV{t: x.t}
		for _, f := range x.fs {
			c.fs = append(c.fs, snapVal(f, h))
		}
		return c
	case *MuxV:
		return &MuxV{x.c, snapVal(x.x, h), snapVal(x.y, h)}
	}
	return v
}

func (ex *Exec) bytesEq(st *State, a, b *SliceV) *Term {
	tb := ex.tb
	ha, hb := ex.heapOf(st, a.snap), ex.heapOf(st, b.snap)
	u8 := types.Typ[types.Uint8]
	bv := tb.BV("int", ex.qdepth)
	at := func(h *Heap, s *SliceV, i *Term) *Term {
		return ex.readLeaf(h, s.mkey, u8, s.arr, tb.Add(s.off, i)).(*Term)
	}
	if a.len.isConst() && b.len.isConst() && a.len == b.len && a.len.k.IsInt64() && a.len.k.Int64() <= 16 {
		r := tb.tru
		for i := int64(0); i < a.len.k.Int64(); i++ {
			r = tb.And(r, tb.Eq(at(ha, a, tb.Int(i)), at(hb, b, tb.Int(i))))
		}
		return r
	}
	return tb.And(tb.Eq(a.len, b.len), tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(tb.zero, bv), tb.Lt(bv, a.len)), tb.Eq(at(ha, a, bv), at(hb, b, bv)))))
}

func (ex *Exec) contractOf(st *State) *contractFrame {
	for j := len(st.stack) - 1; j >= 0; j-- {
		if st.stack[j].contract != nil {
			return st.stack[j].contract
		}
	}
	return nil
}

func registerIntrinsics(eng *Engine) {
	m := map[string]Intrinsic{}
	eng.intrin = m
	v := func(name string, h Intrinsic) { m[vrtPath+"."+name] = h }

	// ---- specification vocabulary ----
	v("Assume", func(ex *Exec, st *State, c *CallCtx) []*State {
		t := c.args[0].(*Term)
		if st.pureEval {
			return states(st)
		}
		st.assume(t)
		if t == ex.tb.fls || !ex.feasiblePC(st) {
			return nil
		}
		return states(st)
	})
	v("Assert", func(ex *Exec, st *State, c *CallCtx) []*State {
		l := ex.labelOf(c.args[0])
		t := c.args[1].(*Term)
		ex.oblig(st, l, "assert", ex.pos(instrPos(c.instr)), t, l)
		st.assume(t)
		return states(st)
	})
	v("Requires", func(ex *Exec, st *State, c *CallCtx) []*State {
		t := c.args[0].(*Term)
		cf := ex.contractOf(st)
		if cf != nil && cf.use {
			ex.oblig(st, "pre.precondition["+cf.target.Name()+"]", "precondition", ex.pos(instrPos(c.instr)), t, "precondition of "+cf.target.String())
		}
		st.assume(t)
		if !ex.feasiblePC(st) {
			return nil
		}
		return states(st)
	})
	v("Ensures", func(ex *Exec, st *State, c *CallCtx) []*State {
		l := ex.labelOf(c.args[0])
		t := c.args[1].(*Term)
		cf := ex.contractOf(st)
		if cf == nil || !cf.use {
			ex.oblig(st, l, "postcondition", ex.pos(instrPos(c.instr)), t, l)
		}
		st.assume(t)
		if cf != nil && cf.use && !ex.feasiblePC(st) {
			return nil
		}
		return states(st)
	})
	v("Modifies", func(ex *Exec, st *State, c *CallCtx) []*State {
		cf := ex.contractOf(st)
		if cf == nil { // the contract is being proved: its frame is checked at the end
			cf = &contractFrame{}
			defer func() {
				if st.frame == nil {
					st.frame = &frameSpec{pre: st.heap.clone(), nalloc: int64(st.nalloc)}
				}
				f := *st.frame
				f.mods = append(append([]modLoc(nil), f.mods...), cf.mods...)
				st.frame = &f
			}()
		}
		sl := c.args[0].(*SliceV)
		n := int64(0)
		if sl.len.isConst() {
			n = sl.len.k.Int64()
		} else {
			panic(unsup("Modifies arguments"))
		}
		anyT := types.NewInterfaceType(nil, nil)
		for i := int64(0); i < n; i++ {
			iv := ex.load(st, Loc{key: sl.mkey, a: sl.arr, i: ex.tb.Add(sl.off, ex.tb.Int(i))}, anyT).(*IfaceV)
			switch x := iv.val.(type) {
			case *PtrV:
				el := iv.typ.Underlying().(*types.Pointer).Elem()
				cf.mods = append(cf.mods, modLoc{loc: x.loc, t: el})
			case *SliceV:
				el := iv.typ.Underlying().(*types.Slice).Elem()
				cf.mods = append(cf.mods, modLoc{loc: Loc{key: x.mkey, a: x.arr, i: x.off}, t: el, rng: true, n: x.len})
			default:
				panic(unsup("Modifies argument"))
			}
		}
		return states(st)
	})
	v("Cover", func(ex *Exec, st *State, c *CallCtx) []*State {
		if ex.infer == 0 && !st.noObl {
			ex.covers[ex.labelOf(c.args[0])] = true
		}
		return states(st)
	})
	v("Expect", func(ex *Exec, st *State, c *CallCtx) []*State {
		if ex.infer == 0 && !st.noObl {
			l := ex.labelOf(c.args[0])
			ex.expect[l] = true
		}
		return states(st)
	})
	v("Step", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.trace = append(st.trace, ex.labelOf(c.args[0]))
		return states(st)
	})
	nd := func(name string, mk func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val) {
		v(name, func(ex *Exec, st *State, c *CallCtx) []*State {
			n := ex.labelOf(c.args[0])
			t := c.fn.Signature.Results().At(0).Type()
			val := mk(ex, st, n, t, c)
			ex.ndVar(st, name, n, t, val)
			return c.done(st, val)
		})
	}
	scalar := func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		return ex.freshVal(st, "nd_"+n, t, "")
	}
	nd("Bool", scalar)
	nd("Byte", scalar)
	nd("U16", scalar)
	nd("U32", scalar)
	nd("U64", scalar)
	nd("I64", scalar)
	nd("Dur", scalar)
	nd("String", func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		return ex.freshVal(st, "nd_"+n, t, "")
	})
	nd("Int", func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		lo, hi := c.args[1].(*Term), c.args[2].(*Term)
		if lo.isConst() && hi.isConst() {
			return ex.tb.Fresh("nd_"+n, SInt, lo.k, hi.k)
		}
		x := ex.freshVal(st, "nd_"+n, t, "").(*Term)
		st.assume(ex.tb.And(ex.tb.Le(lo, x), ex.tb.Le(x, hi)))
		return x
	})
	nd("Bytes", func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		return ex.freshBytes(st, "nd_"+n, nil)
	})
	nd("Bytes8", func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		return ex.freshVal(st, "nd_"+n, t, "")
	})
	nd("Err", func(ex *Exec, st *State, n string, t types.Type, c *CallCtx) Val {
		b := ex.tb.Fresh("nd_"+n, SBool, nil, nil)
		return ex.mergeErr(b, ex.newErr(st, "vrt.opaqueError"), ex.nilIface())
	})
	v("Any", func(ex *Exec, st *State, c *CallCtx) []*State {
		n := ex.labelOf(c.args[0])
		t := c.fn.Signature.Results().At(0).Type()
		val := ex.freshVal(st, "any_"+n, t, ex.freshVer(st))
		st.cutTaint = true
		return c.done(st, val)
	})
	v("Snap", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, snapVal(c.args[0], st.heap.clone()))
	})
	// Old(view, x): x as seen in the snapshot view belongs to
	v("Old", func(ex *Exec, st *State, c *CallCtx) []*State {
		p, ok := c.args[0].(*PtrV)
		if !ok || p.loc.snap == nil {
			return c.done(st, c.args[1])
		}
		return c.done(st, snapVal(c.args[1], p.loc.snap))
	})
	// Entry(&x.lock, p), Exit(&x.lock, p): p as it was at the beginning and end of the last critical section
	sect := func(exit bool) Intrinsic {
		return func(ex *Exec, st *State, c *CallCtx) []*State {
			key, a := ex.mutexIdent(c.args[0].(*IfaceV).val)
			if st.entry[key+"|"+fmt.Sprint(a.id)] == nil {
				ex.observe(st, key, a)
			}
			s := st.entry[key+"|"+fmt.Sprint(a.id)]
			h := st.heap.clone()
			if s != nil && exit {
				h = s.out
			} else if s != nil {
				h = s.in
			}
			return c.done(st, snapVal(c.args[1], h))
		}
	}
	v("Entry", sect(false))
	v("Exit", sect(true))
	// Unroll(n): loops of this unit are followed n times only (bounded, not proved)
	v("Unroll", func(ex *Exec, st *State, c *CallCtx) []*State {
		if ex.opts.unroll == 0 {
			ex.opts.unroll = int(c.args[0].(*Term).k.Int64())
		}
		return states(st)
	})
	v("Own", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a := ex.mutexIdent(c.args[0].(*IfaceV).val)
		return c.done(st, ghostInt(ex, st, ownKey(key, a)))
	})
	v("SetOwn", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a := ex.mutexIdent(c.args[0].(*IfaceV).val)
		st.ghost[ownKey(key, a)] = c.args[1]
		return states(st)
	})
	v("HoldsLock", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a := ex.mutexIdent(c.args[0].(*IfaceV).val)
		r := ex.tb.fls
		for _, h := range st.locks {
			if h.key == key {
				r = ex.tb.Or(r, ex.tb.Eq(h.a, a))
			}
		}
		return c.done(st, r)
	})
	// JSONIs(b, f): b is the JSON encoding of a value for which f holds
	v("JSONIs", func(ex *Exec, st *State, c *CallCtx) []*State {
		tb := ex.tb
		b, ok := st.ghost["$json"].(*SliceV)
		arg, ok2 := st.ghost["$jsonarg"].(*IfaceV)
		t := c.fn.TypeArgs()[0]
		if !ok || !ok2 || arg.typ == nil {
			return c.done(st, tb.fls)
		}
		v := arg.val
		at := arg.typ
		if p, ok := at.Underlying().(*types.Pointer); ok {
			at = p.Elem()
			v = ex.load(st, v.(*PtrV).loc, at)
		}
		if !types.Identical(at, t) {
			return c.done(st, tb.fls)
		}
		same := ex.bytesEq(st, c.args[0].(*SliceV), b)
		ex.trust("equal JSON encodings are only compared by their arguments")
		fv := c.args[1].(*FuncV)
		return c.done(st, tb.And(same, ex.evalPure(st, fv.fn, []Val{v}, fv.bind).(*Term)))
	})
	v("Share", func(ex *Exec, st *State, c *CallCtx) []*State {
		iv := c.args[0].(*IfaceV)
		st.shared[ex.refTerm(iv.val)] = true
		st.cutTaint = true
		return states(st)
	})
	v("Sequential", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$seq"] = ex.boolInt(c.args[0].(*Term))
		return states(st)
	})
	v("AllowBlock", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$allowblock"] = ex.boolInt(c.args[0].(*Term))
		return states(st)
	})
	v("BlockProp", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$blockprop"] = c.args[0]
		ex.blockProp = ex.labelOf(c.args[0])
		return states(st)
	})
	v("GoRecord", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$gomode"] = ex.boolInt(c.args[0].(*Term))
		return states(st)
	})
	v("Spawned", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ghostInt(ex, st, "$spawned"))
	})
	v("Closes", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ghostInt(ex, st, "$closes"))
	})
	v("Sent", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ghostInt(ex, st, "$sent"))
	})
	v("LocksHeld", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.Int(int64(len(st.locks))))
	})
	v("RunSpawned", func(ex *Exec, st *State, c *CallCtx) []*State {
		return ex.runSpawned(st, c.instr)
	})
	v("SameRef", func(ex *Exec, st *State, c *CallCtx) []*State {
		a, b := c.args[0].(*IfaceV), c.args[1].(*IfaceV)
		return c.done(st, ex.eqVal(st, a, b))
	})
	v("SameSlice", func(ex *Exec, st *State, c *CallCtx) []*State {
		tb := ex.tb
		a, b := c.args[0].(*SliceV), c.args[1].(*SliceV)
		return c.done(st, tb.And(tb.Eq(a.arr, b.arr), tb.Eq(a.off, b.off), tb.Eq(a.len, b.len)))
	})
	// Inside(s, b): slice s lies within the array section of b
	v("Inside", func(ex *Exec, st *State, c *CallCtx) []*State {
		tb := ex.tb
		a, b := c.args[0].(*SliceV), c.args[1].(*SliceV)
		return c.done(st, tb.Or(tb.Eq(a.len, tb.zero), tb.And(tb.Eq(a.arr, b.arr), tb.Le(b.off, a.off), tb.Le(tb.Add(a.off, a.len), tb.Add(b.off, b.len)))))
	})
	v("NilBytes", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.Eq(c.args[0].(*SliceV).arr, ex.tb.zero))
	})
	v("Offset", func(ex *Exec, st *State, c *CallCtx) []*State {
		a, b := c.args[0].(*SliceV), c.args[1].(*SliceV)
		return c.done(st, ex.tb.Sub(a.off, b.off))
	})
	v("BytesEq", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.bytesEq(st, c.args[0].(*SliceV), c.args[1].(*SliceV)))
	})
	q := func(exists bool) Intrinsic {
		return func(ex *Exec, st *State, c *CallCtx) []*State {
			tb := ex.tb
			lo, hi := c.args[0].(*Term), c.args[1].(*Term)
			if !hi.bvs {
				st.addCand("int", hi)
				st.addCand("int", tb.AddC(hi, -1))
				st.addCand("int", lo)
			}
			t := ex.quant(st, "int", c.args[2], func(bv *Term) *Term { return tb.And(tb.Le(lo, bv), tb.Lt(bv, hi)) }, exists, nil)
			return c.done(st, t)
		}
	}
	v("Forall", q(false))
	v("Exists", q(true))
	v("Inst", func(ex *Exec, st *State, c *CallCtx) []*State { // instantiation hint
		st.addCand("int", c.args[0].(*Term))
		return states(st)
	})
	// ForallKeys(m1, m2, f): f(k) for all keys
	v("ForallKeys", func(ex *Exec, st *State, c *CallCtx) []*State {
		kt := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Map).Key()
		kind := "key:" + typeKey(kt)
		t := ex.quant(st, kind, c.args[2], nil, false, func(bv *Term) Val { return ex.keyVal(bv, kt) })
		return c.done(st, t)
	})
	v("InstKey", func(ex *Exec, st *State, c *CallCtx) []*State {
		kt := c.fn.Signature.Params().At(0).Type()
		st.addCand("key:"+typeKey(kt), ex.keyTerm(st, c.args[0], kt))
		return states(st)
	})
	// ForallRefs(f): all objects of a type
	v("ForallRefs", func(ex *Exec, st *State, c *CallCtx) []*State {
		pt := c.fn.Signature.Params().At(0).Type().(*types.Signature).Params().At(0).Type()
		kind := "key:" + typeKey(pt)
		tb := ex.tb
		t := ex.quant(st, kind, c.args[0], func(bv *Term) *Term { return tb.Neq(bv, tb.zero) }, false, func(bv *Term) Val { return ex.keyVal(bv, pt) })
		return c.done(st, t)
	})
	v("InstRef", func(ex *Exec, st *State, c *CallCtx) []*State {
		pt := c.fn.Signature.Params().At(0).Type()
		st.addCand("key:"+typeKey(pt), ex.refTerm(c.args[0]))
		return states(st)
	})
	v("SemHeld", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.semHeld(st, ex.refTerm(c.args[0].(*IfaceV).val)))
	})
	v("ChanClosed", func(ex *Exec, st *State, c *CallCtx) []*State {
		r := c.args[0].(*IfaceV).val.(*RefV)
		h := ex.heapOf(st, r.snap)
		ex.keyT["chan#closed"] = boolT
		return c.done(st, ex.readLeaf(h, "chan#closed", boolT, r.t, nil))
	})
	v("ChanLen", func(ex *Exec, st *State, c *CallCtx) []*State {
		r := c.args[0].(*IfaceV).val.(*RefV)
		ex.keyT["chan#n"] = intTT
		return c.done(st, ex.readLeaf(ex.heapOf(st, r.snap), "chan#n", intTT, r.t, nil))
	})
	v("ChanCap", func(ex *Exec, st *State, c *CallCtx) []*State {
		r := c.args[0].(*IfaceV).val.(*RefV)
		ex.keyT["chan#cap"] = intTT
		return c.done(st, ex.readLeaf(ex.heapOf(st, r.snap), "chan#cap", intTT, r.t, nil))
	})
	v("Havoc", func(ex *Exec, st *State, c *CallCtx) []*State { // arbitrary contents for *p
		iv := c.args[0].(*IfaceV)
		p := iv.val.(*PtrV)
		ex.havocLoc(st, p.loc, iv.typ.Underlying().(*types.Pointer).Elem(), ex.freshVer(st))
		st.cutTaint = true
		return states(st)
	})
	v("IsType", func(ex *Exec, st *State, c *CallCtx) []*State { // IsType[T](x)
		t := c.fn.TypeArgs()[0]
		iv := c.args[0].(*IfaceV)
		if iv.typ != nil {
			return c.done(st, ex.tb.Bool(types.Identical(iv.typ, t)))
		}
		return c.done(st, ex.tb.Eq(iv.tag, ex.tb.Int(ex.eng.tag(typeKey(t)))))
	})
	v("PanicProp", func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.panicProp = ex.labelOf(c.args[0])
		return states(st)
	})
	v("Boundary", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ex.tb.tru) })
	v("Contract", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ex.tb.tru) })

	// ---- errors, fmt, log ----
	newErr := func(kind string) Intrinsic {
		return func(ex *Exec, st *State, c *CallCtx) []*State {
			return c.done(st, ex.newErr(st, kind))
		}
	}
	m["errors.New"] = newErr("*errors.errorString")
	m["fmt.Errorf"] = newErr("*fmt.wrapError")
	m["iface.Error"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		iv := c.args[0].(*IfaceV)
		return ex.must(st, ex.tb.Neq(iv.tag, ex.tb.zero), "nil-deref", instrPos(c.instr), "Error() on nil error", func(st *State) []*State {
			return c.done(st, ex.tb.App("errtext", SInt, new(big.Int), nil, iv.tag, ex.ifaceData(st, iv)))
		})
	}
	m["iface.String"] = m["iface.Error"]
	anyStr := func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.Fresh("str", SInt, new(big.Int), nil))
	}
	m["fmt.Sprintf"] = anyStr
	m["fmt.Sprint"] = anyStr
	nop := func(ex *Exec, st *State, c *CallCtx) []*State {
		if c.sig != nil && c.sig.Results().Len() > 0 {
			return c.done(st, ex.freshVal(st, "x", resType(c.sig), ""))
		}
		return states(st)
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "log.Printf", "log.Println"} {
		m[n] = nop
	}
	recvNonNil := func(what string) Intrinsic {
		return func(ex *Exec, st *State, c *CallCtx) []*State {
			p := c.args[0].(*PtrV)
			return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", instrPos(c.instr), what+" on nil receiver", func(st *State) []*State {
				if c.sig != nil && c.sig.Results().Len() > 0 {
					return c.done(st, ex.freshVal(st, "x", resType(c.sig), ""))
				}
				return states(st)
			})
		}
	}
	for _, n := range []string{"Printf", "Println", "Print"} {
		m["(*log.Logger)."+n] = recvNonNil("log.Logger." + n)
	}
	m["log.New"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		lt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		return c.done(st, &PtrV{loc: Loc{key: typeKey(lt), a: ex.newRef(st)}})
	}

	// ---- sync ----
	m["(*sync.Mutex).Lock"] = func(ex *Exec, st *State, c *CallCtx) []*State { return ex.lock(st, c.args[0], true, c.instr) }
	m["(*sync.RWMutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*sync.RWMutex).RLock"] = func(ex *Exec, st *State, c *CallCtx) []*State { return ex.lock(st, c.args[0], false, c.instr) }
	m["(*sync.Mutex).Unlock"] = func(ex *Exec, st *State, c *CallCtx) []*State { return ex.unlock(st, c.args[0], true, c.instr) }
	m["(*sync.RWMutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*sync.RWMutex).RUnlock"] = func(ex *Exec, st *State, c *CallCtx) []*State { return ex.unlock(st, c.args[0], false, c.instr) }
	m["(*sync.Pool).Get"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		p := c.args[0].(*PtrV)
		ex.trust("sync.Pool.Get returns an object made by New (recycled objects are covered by the arbitrary-previous-contents obligations)")
		nf := ex.load(st, Loc{key: p.loc.key + ".New", a: p.loc.a, i: p.loc.i}, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.NewInterfaceType(nil, nil))), false))
		fv, ok := nf.(*FuncV)
		if !ok {
			panic(unsup("sync.Pool New"))
		}
		return ex.callVal(st, fv, nil, nil, c.ret, c.instr)
	}
	m["(*sync.Pool).Put"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$poolput"] = ex.tb.AddC(ghostInt(ex, st, "$poolput"), 1)
		st.ghost["$poolobj"] = ex.ifaceData(st, c.args[1].(*IfaceV))
		return states(st)
	}
	v("PoolPuts", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ghostInt(ex, st, "$poolput")) })
	v("PoolLast", func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.Eq(ghostInt(ex, st, "$poolobj"), ex.refTerm(c.args[0].(*IfaceV).val)))
	})

	// ---- sync/atomic ----
	for _, w := range []string{"Uint32", "Uint64", "Int32", "Int64"} {
		m["sync/atomic.Load"+w] = func(ex *Exec, st *State, c *CallCtx) []*State {
			return ex.atomicOp(st, c, func(st *State, p *PtrV, t types.Type, cur *Term) []*State { return c.done(st, cur) })
		}
		m["sync/atomic.Store"+w] = func(ex *Exec, st *State, c *CallCtx) []*State {
			return ex.atomicOp(st, c, func(st *State, p *PtrV, t types.Type, cur *Term) []*State {
				return ex.atomicStore(st, p, t, cur, c.args[1].(*Term), c)
			})
		}
		m["sync/atomic.Add"+w] = func(ex *Exec, st *State, c *CallCtx) []*State {
			return ex.atomicOp(st, c, func(st *State, p *PtrV, t types.Type, cur *Term) []*State {
				n := ex.wrap(st, ex.tb.Add(cur, c.args[1].(*Term)), t)
				c.set(st, n)
				return ex.atomicStore(st, p, t, cur, n, c)
			})
		}
		m["sync/atomic.CompareAndSwap"+w] = func(ex *Exec, st *State, c *CallCtx) []*State {
			return ex.atomicOp(st, c, func(st *State, p *PtrV, t types.Type, cur *Term) []*State {
				a, b := ex.fork(st, ex.tb.Eq(cur, c.args[1].(*Term)))
				var out []*State
				if a != nil {
					c.set(a, ex.tb.tru)
					out = append(out, ex.atomicStore(a, p, t, cur, c.args[2].(*Term), c)...)
				}
				if b != nil {
					c.set(b, ex.tb.fls)
					out = append(out, b)
				}
				return out
			})
		}
	}

	// ---- semaphore ----
	const sem = "golang.org/x/sync/semaphore"
	m[sem+".NewWeighted"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		a := ex.newRef(st)
		wt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		ex.store(st, Loc{key: "sem#held", a: a}, types.Typ[types.Int64], ex.tb.zero)
		ex.store(st, Loc{key: "sem#size", a: a}, types.Typ[types.Int64], c.args[0])
		return c.done(st, &PtrV{loc: Loc{key: typeKey(wt), a: a}})
	}
	v("SemSize", func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.keyT["sem#size"] = types.Typ[types.Int64]
		return c.done(st, ex.load(st, Loc{key: "sem#size", a: ex.refTerm(c.args[0].(*IfaceV).val)}, types.Typ[types.Int64]))
	})
	m["(*"+sem+".Weighted).Acquire"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		p := c.args[0].(*PtrV)
		ex.trust("semaphore.Weighted.Acquire returns nil after reserving the weight or a non-nil error reserving nothing; with context.Background it only returns nil")
		return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", instrPos(c.instr), "Acquire on nil semaphore", func(st *State) []*State {
			n := c.args[2].(*Term)
			ctx, _ := c.args[1].(*IfaceV)
			var out []*State
			bg := ctx != nil && ctx.tag.isConst() && ctx.tag == ex.tb.Int(ex.eng.tag("context.backgroundCtx"))
			if !bg {
				f := st.clone()
				c.set(f, ex.newErr(f, "context.ctxErr"))
				out = append(out, f)
			}
			h := ex.semHeld(st, p.loc.a)
			ex.store(st, Loc{key: "sem#held", a: p.loc.a}, types.Typ[types.Int64], ex.tb.Add(h, n))
			c.set(st, ex.nilIface())
			return append(out, st)
		})
	}
	m["(*"+sem+".Weighted).TryAcquire"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		p := c.args[0].(*PtrV)
		f := st.clone()
		c.set(f, ex.tb.fls)
		h := ex.semHeld(st, p.loc.a)
		ex.store(st, Loc{key: "sem#held", a: p.loc.a}, types.Typ[types.Int64], ex.tb.Add(h, c.args[1].(*Term)))
		c.set(st, ex.tb.tru)
		return states(st, f)
	}
	m["(*"+sem+".Weighted).Release"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		p := c.args[0].(*PtrV)
		return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", instrPos(c.instr), "Release on nil semaphore", func(st *State) []*State {
			h := ex.semHeld(st, p.loc.a)
			n := c.args[1].(*Term)
			ex.oblig(st, "C18.release-only-held-slots", "semaphore", ex.pos(instrPos(c.instr)), ex.tb.Le(n, h), "semaphore slot released that is not held at "+ex.pos(instrPos(c.instr)))
			st.assume(ex.tb.Le(n, h))
			ex.store(st, Loc{key: "sem#held", a: p.loc.a}, types.Typ[types.Int64], ex.tb.Sub(h, n))
			return states(st)
		})
	}

	// ---- context ----
	m["context.Background"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, &IfaceV{tag: ex.tb.Int(ex.eng.tag("context.backgroundCtx")), val: ex.tb.one})
	}
	m["context.TODO"] = m["context.Background"]
	m["iface.Done"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		iv := c.args[0].(*IfaceV)
		if iv.tag == ex.tb.Int(ex.eng.tag("context.backgroundCtx")) {
			return c.done(st, &RefV{t: ex.tb.zero})
		}
		t := ex.tb.App("ctxdone", SInt, new(big.Int), nil, ex.ifaceData(st, iv))
		ex.keyT["chan#closed"] = boolT
		return c.done(st, &RefV{t: t})
	}
	m["iface.Err"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		iv := c.args[0].(*IfaceV)
		if iv.tag == ex.tb.Int(ex.eng.tag("context.backgroundCtx")) {
			return c.done(st, ex.nilIface())
		}
		key := "$ctxended:" + fmt.Sprint(ex.ifaceData(st, iv).id)
		ex.trust("context.Context: Err is non-nil (Canceled or DeadlineExceeded) once Done is closed")
		ended := st.ghost[key] != nil
		can := ex.tb.Fresh("ctxcanceled", SBool, nil, nil)
		a := ex.globalErr(st, "context.Canceled")
		b := ex.globalErr(st, "context.DeadlineExceeded")
		e := ex.mergeErr(can, a, b)
		if !ended {
			e = ex.mergeErr(ex.tb.Fresh("ctxended", SBool, nil, nil), e, ex.nilIface())
		}
		return c.done(st, e)
	}

	// ---- time ----
	m["time.Now"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		t := ex.freshVal(st, "now", c.sig.Results().At(0).Type(), "").(*StructV)
		st.assume(ex.tb.Neq(t.fs[0].(*Term), ex.tb.zero))
		return c.done(st, t)
	}
	m["time.Unix"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		t := ex.zeroVal(c.sig.Results().At(0).Type()).(*StructV)
		t.fs[0] = ex.tb.Add(c.args[1].(*Term), ex.tb.one)
		t.fs[1] = c.args[0]
		return c.done(st, t)
	}
	m["(time.Time).IsZero"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		t := c.args[0].(*StructV)
		return c.done(st, ex.tb.And(ex.tb.Eq(t.fs[0].(*Term), ex.tb.zero), ex.tb.Eq(t.fs[1].(*Term), ex.tb.zero)))
	}
	m["(time.Time).Equal"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.eqVal(st, c.args[0], c.args[1]))
	}
	m["(time.Time).Add"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		t := c.args[0].(*StructV)
		n := &StructV{t: t.t, fs: append([]Val{}, t.fs...)}
		n.fs[0] = ex.tb.App("timeadd", SInt, new(big.Int).Set(bigOne), nil, t.fs[0].(*Term), c.args[1].(*Term))
		return c.done(st, n)
	}
	m["time.Until"] = nop
	m["time.Since"] = nop
	m["(time.Time).Sub"] = nop
	m["time.NewTimer"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		tt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		a := ex.newRef(st)
		key := typeKey(tt)
		ex.havocObj(st, key, tt, a, ex.freshVer(st))
		p := &PtrV{loc: Loc{key: key, a: a}}
		ch := ex.tb.Fresh("timerC", SInt, new(big.Int).Set(bigOne), nil)
		stt := tt.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "C" {
				ex.store(st, Loc{key: key + ".C", a: a}, stt.Field(i).Type(), &RefV{t: ch})
			}
		}
		return c.done(st, p)
	}
	m["(*time.Timer).Stop"] = nop
	m["(*time.Timer).Reset"] = nop
	m["time.Sleep"] = nop

	// ---- encoding/json ----
	m["encoding/json.Marshal"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.trust("json.Marshal returns fresh bytes (at least one) or an error; it does not change its argument")
		f := st.clone()
		if fails, ok := st.ghost["$jsonfails"].(*Term); ok {
			f.assume(fails)
			st.assume(ex.tb.Not(fails))
		}
		c.set(f, &TupleV{vs: []Val{ex.zeroVal(c.sig.Results().At(0).Type()), ex.newErr(f, "*json.Error")}})
		b := ex.freshBytes(st, "json", ex.tb.Fresh("json.len", SInt, new(big.Int).Set(bigOne), maxSz))
		st.ghost["$json"] = b
		st.ghost["$jsonarg"] = c.args[0]
		c.set(st, &TupleV{vs: []Val{b, ex.nilIface()}})
		ex.ndVar(st, "json", "json", nil, b)
		return states(st, f)
	}
	v("ValidText", func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.trust("text passes through its JSON encoding unchanged (valid UTF-8 only)")
		return c.done(st, ex.tb.tru)
	})
	v("JSONFails", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$jsonfails"] = c.args[0]
		return c.done(st, nil)
	})
	v("Pause", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, nil) })
	v("LastJSON", func(ex *Exec, st *State, c *CallCtx) []*State {
		if b, ok := st.ghost["$json"].(*SliceV); ok {
			return c.done(st, b)
		}
		return c.done(st, ex.zeroVal(c.fn.Signature.Results().At(0).Type()))
	})
	m["encoding/json.Unmarshal"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b := ex.tb.Fresh("unm", SBool, nil, nil)
		ex.trust("json.Unmarshal fills its target arbitrarily or fails")
		if iv, ok := c.args[1].(*IfaceV); ok && iv.typ != nil {
			if p, ok := iv.val.(*PtrV); ok {
				ex.havocLoc(st, p.loc, iv.typ.Underlying().(*types.Pointer).Elem(), ex.freshVer(st))
			}
		}
		return c.done(st, ex.mergeErr(b, ex.newErr(st, "*json.Error"), ex.nilIface()))
	}

	// ---- io ----
	m["io.Copy"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.trust("io.Copy returns arbitrary counts and errors")
		e := ex.mergeErr(ex.tb.Fresh("copyerr", SBool, nil, nil), ex.newErr(st, "io.error"), ex.nilIface())
		return c.done(st, &TupleV{vs: []Val{ex.tb.Fresh("copied", SInt, new(big.Int), maxSz), e}})
	}
	registerStrIntrinsics(m)
	registerFSIntrinsics(m)
}

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (ex *Exec) boolInt(t *Term) *Term { return ex.tb.Ite(t, ex.tb.one, ex.tb.zero) }

func (ex *Exec) semHeld(st *State, a *Term) *Term {
	ex.keyT["sem#held"] = types.Typ[types.Int64]
	return ex.load(st, Loc{key: "sem#held", a: a}, types.Typ[types.Int64]).(*Term)
}

// globalErr is the value of a standard error variable.
func (ex *Exec) globalErr(st *State, name string) *IfaceV {
	v := ex.globalConst(st, "glob:"+name, types.Universe.Lookup("error").Type())
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	panic(unsup("global error " + name))
}

func (ex *Exec) atomicOp(st *State, c *CallCtx, k func(st *State, p *PtrV, t types.Type, cur *Term) []*State) []*State {
	p := c.args[0].(*PtrV)
	t := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", instrPos(c.instr), "atomic operation on nil", func(st *State) []*State {
		return k(st, p, t, ex.atomicRead(st, p, t))
	})
}

func (ex *Exec) atomicStore(st *State, p *PtrV, t types.Type, old, n *Term, c *CallCtx) []*State {
	if rel := ex.eng.atomics[p.loc.key]; rel != nil {
		prop := ex.eng.atomicProp[p.loc.key]
		ex.oblig(st, prop+".atomic-transition["+shortKey(p.loc.key)+"]", "lock-transition", ex.pos(instrPos(c.instr)), ex.evalPure(st, rel, []Val{old, n}, nil).(*Term), "atomic update of "+p.loc.key)
	}
	ex.store(st, p.loc, t, n)
	return states(st)
}

// runSpawned runs the goroutines that were recorded to run last, one after another.
func (ex *Exec) runSpawned(st *State, in ssa.Instruction) []*State {
	if len(st.spawned) == 0 {
		return states(st)
	}
	sp := st.spawned[0]
	st.spawned = append([]spawn(nil), st.spawned[1:]...)
	f := st.top()
	f.ip-- // come back for the rest
	return ex.callVal(st, sp.fn, sp.args, sp.call, nil, in)
}

func propOf(unit string) string {
	for _, p := range strings.Split(unit, "_") {
		if len(p) == 3 && p[0] == 'C' {
			return p
		}
	}
	return "C00"
}
