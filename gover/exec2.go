package main

// Instruction semantics: arithmetic, conversions, memory, maps, type assertions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) wrap(st *State, x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return x
	}
	if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
		return x
	}
	tb := ex.tb
	if !x.bvs && st != nil && !st.pureEval {
		if ex.implied(st, tb.And(tb.Le(tb.Big(lo), x), tb.Le(x, tb.Big(hi)))) {
			return x
		}
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	return tb.Add(tb.Mod(tb.Sub(x, tb.Big(lo)), m), tb.Big(lo))
}

func pow2Exp(v *big.Int) (int, bool) {
	if v.Sign() <= 0 {
		return 0, false
	}
	n := v.BitLen() - 1
	if pow2(n).Cmp(v) == 0 {
		return n, true
	}
	return 0, false
}

func (ex *Exec) binop(st *State, f *Frame, i *ssa.BinOp) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		return ex.withVal(st, i.Y, func(st *State, y Val) []*State {
			f := st.top()
			tb := ex.tb
			switch i.Op {
			case token.EQL, token.NEQ:
				var r *Term
				if isString(i.X.Type()) {
					if st.pureEval || true {
						r = ex.strEq(x.(*Term), y.(*Term))
					}
				} else {
					r = ex.eqVal(st, x, y)
				}
				if i.Op == token.NEQ {
					r = tb.Not(r)
				}
				f.regs[i] = r
				return states(st)
			}
			a, ok1 := x.(*Term)
			b, ok2 := y.(*Term)
			if !ok1 || !ok2 {
				panic(unsup(fmt.Sprintf("binop %s on %T", i.Op, x)))
			}
			t := i.X.Type()
			if isString(t) {
				switch i.Op {
				case token.ADD:
					f.regs[i] = ex.concat(a, b)
				default:
					f.regs[i] = tb.App("str"+i.Op.String(), SBool, nil, nil, a, b)
				}
				return states(st)
			}
			if isFloat(t) {
				s := SInt
				switch i.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					s = SBool
				}
				f.regs[i] = tb.App("float"+i.Op.String(), s, nil, nil, a, b)
				return states(st)
			}
			switch i.Op {
			case token.LSS:
				f.regs[i] = tb.Lt(a, b)
			case token.LEQ:
				f.regs[i] = tb.Le(a, b)
			case token.GTR:
				f.regs[i] = tb.Gt(a, b)
			case token.GEQ:
				f.regs[i] = tb.Ge(a, b)
			case token.ADD, token.SUB, token.MUL:
				var r *Term
				switch i.Op {
				case token.ADD:
					r = tb.Add(a, b)
				case token.SUB:
					r = tb.Sub(a, b)
				default:
					r = tb.Mul(a, b)
				}
				if !f.pure {
					r = ex.wrap(st, r, i.Type())
				}
				f.regs[i] = r
			case token.QUO, token.REM:
				if b.isConst() && b.k.Sign() > 0 {
					var q *Term
					if a.lo != nil && a.lo.Sign() >= 0 || (!st.pureEval && ex.implied(st, tb.Ge(a, tb.zero))) {
						q = tb.Div(a, b.k)
						if i.Op == token.REM {
							f.regs[i] = tb.Mod(a, b.k)
							return states(st)
						}
					} else {
						q = tb.Ite(tb.Ge(a, tb.zero), tb.Div(a, b.k), tb.Neg(tb.Div(tb.Neg(a), b.k)))
					}
					if i.Op == token.QUO {
						f.regs[i] = q
					} else {
						f.regs[i] = tb.Sub(a, tb.Mul(q, b))
					}
					return states(st)
				}
				lo, hi := intRange(i.Type())
				r := tb.App("go"+i.Op.String(), SInt, lo, hi, a, b)
				return ex.must(st, tb.Neq(b, tb.zero), "div-zero", i.Pos(), "integer divide by zero", func(st *State) []*State {
					st.top().regs[i] = r
					return states(st)
				})
			default:
				f.regs[i] = ex.bitop(st, i.Op, a, b, i.Type(), f.pure)
			}
			return states(st)
		})
	})
}

// trailing zero bits known for a term
func (ex *Exec) tz(x *Term) int {
	switch x.op {
	case "const":
		if x.k.Sign() == 0 {
			return 64
		}
		return int(x.k.TrailingZeroBits())
	case "lin":
		n := 64
		if x.k.Sign() != 0 {
			n = int(x.k.TrailingZeroBits())
		}
		for i, a := range x.args {
			m := int(x.cs[i].TrailingZeroBits()) + ex.tz(a)
			if m < n {
				n = m
			}
		}
		return n
	}
	return 0
}

func (ex *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type, pure bool) *Term {
	tb := ex.tb
	lo, hi := intRange(t)
	if a.isConst() && b.isConst() && a.k.Sign() >= 0 && b.k.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			return tb.Big(r.And(a.k, b.k))
		case token.OR:
			return tb.Big(r.Or(a.k, b.k))
		case token.XOR:
			return tb.Big(r.Xor(a.k, b.k))
		case token.AND_NOT:
			return tb.Big(r.AndNot(a.k, b.k))
		}
	}
	switch op {
	case token.SHL:
		if b.isConst() && b.k.IsInt64() && b.k.Int64() < 64 {
			return ex.wrap(st, tb.Mul(a, tb.Big(pow2(int(b.k.Int64())))), t)
		}
	case token.SHR:
		if b.isConst() && b.k.IsInt64() && b.k.Int64() < 64 {
			return tb.Div(a, pow2(int(b.k.Int64())))
		}
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k.Sign() >= 0 {
			if b.k.Sign() == 0 {
				return tb.zero
			}
			m := new(big.Int).Add(b.k, bigOne)
			if _, ok := pow2Exp(m); ok {
				return tb.Mod(a, m)
			}
			// contiguous high mask within the type
			z := int(b.k.TrailingZeroBits())
			m = new(big.Int).Add(new(big.Int).Rsh(b.k, uint(z)), bigOne)
			if n, ok := pow2Exp(m); ok && (a.lo != nil && a.lo.Sign() >= 0) {
				// (a div 2^z) mod 2^n * 2^z
				return tb.Mul(tb.Mod(tb.Div(a, pow2(z)), pow2(n)), tb.Big(pow2(z)))
			}
		}
	case token.OR, token.XOR:
		if a == tb.zero {
			return b
		}
		if b == tb.zero {
			return a
		}
		for k := 0; k < 2; k++ {
			if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && (a.lo != nil && a.lo.Sign() >= 0 || !st.pureEval && ex.tz(a) > 0 && ex.implied(st, tb.Ge(a, tb.zero))) {
				z := ex.tz(a)
				if b.hi.Cmp(pow2(z)) < 0 {
					return tb.Add(a, b)
				}
			}
			if z := ex.tz(a); !st.pureEval && z > 0 && z < 63 && ex.implied(st, tb.And(tb.Ge(a, tb.zero), tb.Ge(b, tb.zero), tb.Lt(b, tb.Big(pow2(z))))) {
				return tb.Add(a, b)
			}
			a, b = b, a
		}
	}
	if hi != nil && a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = new(big.Int)
	}
	return tb.App("bit"+op.String(), SInt, lo, hi, a, b)
}

func (ex *Exec) concat(a, b *Term) *Term {
	tb := ex.tb
	if a == tb.zero {
		return b
	}
	if b == tb.zero {
		return a
	}
	if ca, ok := tb.strOf[a]; ok {
		if cb, ok := tb.strOf[b]; ok {
			return ex.strConst(ca + cb)
		}
	}
	la, lb := ex.strlen(a), ex.strlen(b)
	id := tb.App("strcat", SInt, new(big.Int), nil, a, b)
	if _, ok := ex.seqm[id]; !ok {
		ex.seqm[id] = &seqRec{id: id, len: tb.Add(la, lb), def: func(i *Term) *Term {
			return tb.Ite(tb.Lt(i, la), ex.strAt(a, i), ex.strAt(b, tb.Sub(i, la)))
		}}
		tb.AddFact(id, tb.Eq(tb.Eq(tb.Add(la, lb), tb.zero), tb.Eq(id, tb.zero)))
		if !id.bvs {
			// either part is determined by the whole and the other part
			tb.AddFact(id, tb.And(tb.Eq(tb.App("strcat#a", SInt, new(big.Int), nil, id, b), a), tb.Eq(tb.App("strcat#b", SInt, new(big.Int), nil, id, a), b)))
		}
	}
	return id
}

func (ex *Exec) unop(st *State, f *Frame, i *ssa.UnOp) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		f := st.top()
		tb := ex.tb
		switch i.Op {
		case token.MUL:
			p, ok := x.(*PtrV)
			if !ok {
				panic(unsup(fmt.Sprintf("load through %T", x)))
			}
			t := i.Type()
			do := func(st *State) []*State {
				if !st.top().pure {
					ex.accessCheck(st, p.loc, false, i.Pos())
				}
				st.top().regs[i] = ex.loadX(st, p.loc, t)
				return states(st)
			}
			if f.pure {
				return do(st)
			}
			return ex.must(st, tb.Neq(p.loc.a, tb.zero), "nil-deref", i.Pos(), "nil pointer dereference", do)
		case token.NOT:
			f.regs[i] = tb.Not(x.(*Term))
		case token.SUB:
			if isFloat(i.Type()) {
				f.regs[i] = tb.App("floatneg", SInt, nil, nil, x.(*Term))
				break
			}
			r := tb.Neg(x.(*Term))
			if !f.pure {
				r = ex.wrap(st, r, i.Type())
			}
			f.regs[i] = r
		case token.XOR:
			// ^x = -x-1 (signed), max-x (unsigned)
			_, signed, _ := intInfo(i.Type())
			if signed {
				f.regs[i] = tb.AddC(tb.Neg(x.(*Term)), -1)
			} else {
				_, hi := intRange(i.Type())
				f.regs[i] = tb.Sub(tb.Big(hi), x.(*Term))
			}
		case token.ARROW:
			return ex.recv(st, i, x.(*RefV), i.X.Type().Underlying().(*types.Chan).Elem(), i.CommaOk, i.Pos())
		default:
			panic(unsup("unop " + i.Op.String()))
		}
		return states(st)
	})
}

// loadX handles package-level variables without source initialisers specially.
func (ex *Exec) loadX(st *State, loc Loc, t types.Type) Val {
	if strings.HasPrefix(loc.key, "glob:") {
		if v := ex.globalConst(st, loc.key, t); v != nil {
			return v
		}
	}
	return ex.load(st, loc, t)
}

func (ex *Exec) globalConst(st *State, key string, t types.Type) Val {
	name := strings.TrimPrefix(key, "glob:")
	if strings.HasPrefix(name, modPath) {
		return nil
	}
	if isIface(t) && st.heap.m[key+""] == nil {
		// a distinct non-nil value (error variables of dependencies)
		return &IfaceV{tag: ex.tb.Int(ex.eng.tag("globval:" + typeKey(t))), val: ex.tb.Int(5000000 + ex.eng.tag("glob:"+name))}
	}
	return nil
}

func (ex *Exec) convert(st *State, f *Frame, i *ssa.Convert) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		f := st.top()
		v := ex.convVal(st, x, i.X.Type(), i.Type())
		f.regs[i] = v
		return states(st)
	})
}

func (ex *Exec) convVal(st *State, x Val, from, to types.Type) Val {
	tb := ex.tb
	fu, tu := from.Underlying(), to.Underlying()
	if _, _, ok := intInfo(to); ok {
		if _, _, ok2 := intInfo(from); ok2 {
			return ex.wrap(st, x.(*Term), to)
		}
		if isFloat(from) {
			lo, hi := intRange(to)
			return tb.App("f2i", SInt, lo, hi, x.(*Term))
		}
		return x
	}
	if isFloat(to) {
		if isFloat(from) {
			return x
		}
		return tb.App("i2f", SInt, nil, nil, x.(*Term))
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok {
			s, ok := x.(*SliceV)
			if !ok {
				panic(unsup("string of merged slice"))
			}
			b, _ := sl.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				h := st.heap
				if s.snap != nil {
					h = s.snap
				}
				h = h.clone()
				return ex.newSeq("str", s.len, func(j *Term) *Term {
					return ex.readLeaf(h, s.mkey, sl.Elem(), s.arr, tb.Add(s.off, j)).(*Term)
				})
			}
			if b != nil && b.Kind() == types.Int32 {
				// string(runes): opaque
				return tb.Fresh("runestr", SInt, new(big.Int), nil)
			}
		}
		if isString(from) {
			return x
		}
		if _, _, ok := intInfo(from); ok {
			return tb.App("string(rune)", SInt, bigOne, nil, x.(*Term))
		}
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		b := sl.Elem().Underlying().(*types.Basic)
		if b.Kind() == types.Uint8 {
			s := x.(*Term)
			n := ex.strlen(s)
			a := ex.newRef(st)
			mk := memKey(typeKey(sl.Elem()))
			ex.keyT[mk] = sl.Elem()
			st.heap.m[mk] = &Node{kind: NZero, prev: ex.node(st, mk), a: a}
			st.heap.m[mk] = &Node{kind: NCopy, prev: ex.node(st, mk), a: a, i: tb.zero, n: n, soff: tb.zero, sstr: s}
			return &SliceV{mkey: mk, arr: a, off: tb.zero, len: n, cap: n}
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return ex.refTerm(x)
	}
	if _, ok := tu.(*types.Pointer); ok {
		if p, ok := x.(*PtrV); ok {
			return p
		}
	}
	if types.Identical(fu, tu) {
		return x
	}
	panic(unsup(fmt.Sprintf("conversion %v -> %v", from, to)))
}

func (ex *Exec) makeSlice(st *State, f *Frame, i *ssa.MakeSlice) []*State {
	tb := ex.tb
	n := ex.get(st, i.Len).(*Term)
	c := ex.get(st, i.Cap).(*Term)
	el := i.Type().Underlying().(*types.Slice).Elem()
	ok := tb.And(tb.Le(tb.zero, n), tb.Le(n, c))
	do := func(st *State) []*State {
		st.top().regs[i] = ex.newSlice(st, el, n, c)
		return states(st)
	}
	if f.pure {
		return do(st)
	}
	return ex.must(st, ok, "makeslice", i.Pos(), "makeslice: len out of range", do)
}

func (ex *Exec) newSlice(st *State, el types.Type, n, c *Term) *SliceV {
	a := ex.newRef(st)
	mk := memKey(typeKey(el))
	ex.leafKeys(mk, el, func(k string, lt types.Type, arr bool) {
		ex.keyT[k] = lt
		st.heap.m[k] = &Node{kind: NZero, prev: ex.node(st, k), a: a}
	})
	return &SliceV{mkey: mk, arr: a, off: ex.tb.zero, len: n, cap: c}
}

func (ex *Exec) indexAddr(st *State, f *Frame, i *ssa.IndexAddr) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		f := st.top()
		tb := ex.tb
		idx := ex.get(st, i.Index).(*Term)
		var p *PtrV
		var bound *Term
		switch b := x.(type) {
		case *SliceV:
			p = &PtrV{loc: Loc{key: b.mkey, a: b.arr, i: tb.Add(b.off, idx), snap: b.snap}}
			bound = b.len
			st.addCand("int", idx)
		case *PtrV:
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if b.loc.i != nil {
				panic(unsup("array in array"))
			}
			p = &PtrV{loc: Loc{key: arrKey(b.loc.key), a: b.loc.a, i: idx, snap: b.loc.snap}}
			bound = tb.Int(at.Len())
		default:
			panic(unsup(fmt.Sprintf("indexaddr %T", x)))
		}
		if f.pure {
			f.regs[i] = p
			return states(st)
		}
		return ex.must(st, tb.And(tb.Le(tb.zero, idx), tb.Lt(idx, bound)), "index", i.Pos(), "index out of range", func(st *State) []*State {
			st.top().regs[i] = p
			return states(st)
		})
	})
}

func (ex *Exec) index(st *State, f *Frame, i *ssa.Index) []*State {
	tb := ex.tb
	x := ex.get(st, i.X)
	idx := ex.get(st, i.Index).(*Term)
	switch b := x.(type) {
	case *ArrayV:
		do := func(st *State) []*State {
			if idx.isConst() {
				st.top().regs[i] = b.es[idx.k.Int64()]
				return states(st)
			}
			var r Val
			for j := len(b.es) - 1; j >= 0; j-- {
				if r == nil {
					r = b.es[j]
				} else {
					r = ex.mergeVal(tb.Eq(idx, tb.Int(int64(j))), b.es[j], r)
				}
			}
			st.top().regs[i] = r
			return states(st)
		}
		if f.pure {
			return do(st)
		}
		return ex.must(st, tb.And(tb.Le(tb.zero, idx), tb.Lt(idx, tb.Int(int64(len(b.es))))), "index", i.Pos(), "index out of range", do)
	case *Term:
		do := func(st *State) []*State {
			st.top().regs[i] = ex.strAt(b, idx)
			st.addCand("int", idx)
			return states(st)
		}
		if f.pure {
			return do(st)
		}
		return ex.must(st, tb.And(tb.Le(tb.zero, idx), tb.Lt(idx, ex.strlen(b))), "index", i.Pos(), "string index out of range", do)
	}
	panic(unsup(fmt.Sprintf("index %T", x)))
}

// ---- maps ----

func mapKeyName(mt *types.Map) string { return "map[" + typeKey(mt.Key()) + "]" + typeKey(mt.Elem()) }

func (ex *Exec) keyTerm(st *State, v Val, t types.Type) *Term {
	tb := ex.tb
	switch x := v.(type) {
	case *Term:
		if x.sort == SBool {
			return tb.Ite(x, tb.one, tb.zero)
		}
		return x
	case *PtrV, *RefV:
		return ex.refTerm(v)
	case *ArrayV:
		// injective for byte arrays
		at := x.t.Underlying().(*types.Array)
		lo, hi := intRange(at.Elem())
		if lo == nil {
			panic(unsup("array map key"))
		}
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
		r := tb.zero
		m := tb.one
		for _, e := range x.es {
			r = tb.Add(r, tb.Mul(m, e.(*Term)))
			m = tb.Big(new(big.Int).Mul(m.k, w))
		}
		return r
	case *IfaceV:
		d := ex.ifaceData(st, x)
		k := tb.App("ikey", SInt, nil, nil, x.tag, d)
		if !k.bvs {
			tb.AddFact(k, tb.And(tb.Eq(tb.App("ikeyt", SInt, nil, nil, k), x.tag), tb.Eq(tb.App("ikeyd", SInt, nil, nil, k), d)))
		}
		return k
	case *StructV:
		if len(x.fs) == 1 {
			return ex.keyTerm(st, x.fs[0], nil)
		}
	}
	panic(unsup(fmt.Sprintf("map key %T", v)))
}

// keyVal turns a key term back into a value.
func (ex *Exec) keyVal(k *Term, t types.Type) Val {
	tb := ex.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return tb.Eq(k, tb.one)
		}
		return k
	case *types.Pointer:
		return &PtrV{loc: Loc{key: objKey(u.Elem()), a: k}}
	case *types.Chan, *types.Map:
		return &RefV{t: k}
	case *types.Array:
		lo, hi := intRange(u.Elem())
		if lo == nil || lo.Sign() != 0 {
			panic(unsup("array map key"))
		}
		w := new(big.Int).Add(hi, bigOne)
		a := &ArrayV{t: t}
		m := new(big.Int).Set(bigOne)
		for j := int64(0); j < u.Len(); j++ {
			a.es = append(a.es, tb.Mod(tb.Div(k, m), w))
			m = new(big.Int).Mul(m, w)
		}
		return a
	case *types.Interface:
		return &IfaceV{tag: tb.App("ikeyt", SInt, nil, nil, k), val: tb.App("ikeyd", SInt, nil, nil, k)}
	}
	panic(unsup("map key type " + t.String()))
}

func (ex *Exec) initMap(st *State, mt *types.Map, a *Term) {
	mk := mapKeyName(mt)
	ex.keyT[mk+"#has"] = types.Typ[types.Bool]
	ex.keyT[mk+"#len"] = types.Typ[types.Int]
	for _, k := range []string{"#has", "#len"} {
		st.heap.m[mk+k] = &Node{kind: NZero, prev: ex.node(st, mk+k), a: a}
	}
}

func (ex *Exec) heapOf(st *State, snap *Heap) *Heap {
	if snap != nil {
		return snap
	}
	return st.heap
}

func (ex *Exec) mapHasT(st *State, h *Heap, mt *types.Map, a, k *Term) *Term {
	mk := mapKeyName(mt)
	r := ex.readLeaf(h, mk+"#has", types.Typ[types.Bool], a, k).(*Term)
	return ex.tb.And(ex.tb.Neq(a, ex.tb.zero), r)
}

func (ex *Exec) mapLen(st *State, h *Heap, mt *types.Map, a *Term) *Term {
	mk := mapKeyName(mt)
	r := ex.readLeaf(h, mk+"#len", types.Typ[types.Int], a, nil).(*Term)
	return ex.tb.Ite(ex.tb.Eq(a, ex.tb.zero), ex.tb.zero, r)
}

func (ex *Exec) mapVal(st *State, h *Heap, mt *types.Map, a, k *Term) Val {
	mk := mapKeyName(mt) + "#val"
	return ex.loadH(h, Loc{key: mk, a: a, i: k}, mt.Elem())
}

func (ex *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		return ex.withVal(st, i.Index, func(st *State, iv Val) []*State {
			f := st.top()
			tb := ex.tb
			if s, ok := x.(*Term); ok { // string index
				idx := iv.(*Term)
				do := func(st *State) []*State {
					st.top().regs[i] = ex.strAt(s, idx)
					return states(st)
				}
				if f.pure {
					return do(st)
				}
				return ex.must(st, tb.And(tb.Le(tb.zero, idx), tb.Lt(idx, ex.strlen(s))), "index", i.Pos(), "string index out of range", do)
			}
			m := x.(*RefV)
			mt := i.X.Type().Underlying().(*types.Map)
			k := ex.keyTerm(st, iv, mt.Key())
			if !f.pure {
				ex.mapAccess(st, m, mt, false, i.Pos())
			}
			st.addCand("key:"+typeKey(mt.Key()), k)
			h := ex.heapOf(st, m.snap)
			has := ex.mapHasT(st, h, mt, m.t, k)
			if i.CommaOk {
				// fork so that the value is not merged with the zero value
				a, b := ex.fork(st, has)
				var out []*State
				if a != nil {
					v := snapIf(ex.mapVal(a, ex.heapOf(a, m.snap), mt, m.t, k), m.snap)
					a.top().regs[i] = &TupleV{vs: []Val{v, tb.tru}}
					out = append(out, a)
				}
				if b != nil {
					b.top().regs[i] = &TupleV{vs: []Val{ex.zeroVal(mt.Elem()), tb.fls}}
					out = append(out, b)
				}
				return out
			}
			a, b := ex.fork(st, has)
			var out []*State
			if a != nil {
				a.top().regs[i] = snapIf(ex.mapVal(a, ex.heapOf(a, m.snap), mt, m.t, k), m.snap)
				out = append(out, a)
			}
			if b != nil {
				b.top().regs[i] = ex.zeroVal(mt.Elem())
				out = append(out, b)
			}
			return out
		})
	})
}

func (ex *Exec) mapUpdate(st *State, f *Frame, i *ssa.MapUpdate) []*State {
	return ex.withVal(st, i.Map, func(st *State, mv Val) []*State {
		return ex.withVal(st, i.Key, func(st *State, kv Val) []*State {
			return ex.withVal(st, i.Value, func(st *State, v Val) []*State {
				m := mv.(*RefV)
				mt := i.Map.Type().Underlying().(*types.Map)
				do := func(st *State) []*State {
					if !st.top().pure {
						ex.mapAccess(st, m, mt, true, i.Pos())
					}
					ex.mapSet(st, m.t, mt, ex.keyTerm(st, kv, mt.Key()), v)
					return states(st)
				}
				if st.top().pure {
					return do(st)
				}
				return ex.must(st, ex.tb.Neq(m.t, ex.tb.zero), "nil-map", i.Pos(), "assignment to entry in nil map", do)
			})
		})
	})
}

func (ex *Exec) mapSet(st *State, a *Term, mt *types.Map, k *Term, v Val) {
	tb := ex.tb
	mk := mapKeyName(mt)
	st.addCand("key:"+typeKey(mt.Key()), k)
	has := ex.mapHasT(st, st.heap, mt, a, k)
	n := ex.mapLen(st, st.heap, mt, a)
	ex.store(st, Loc{key: mk + "#has", a: a, i: k}, types.Typ[types.Bool], tb.tru)
	ex.store(st, Loc{key: mk + "#len", a: a}, types.Typ[types.Int], tb.Add(n, tb.Ite(has, tb.zero, tb.one)))
	ex.store(st, Loc{key: mk + "#val", a: a, i: k}, mt.Elem(), v)
}

func (ex *Exec) mapDelete(st *State, a *Term, mt *types.Map, k *Term) {
	tb := ex.tb
	mk := mapKeyName(mt)
	st.addCand("key:"+typeKey(mt.Key()), k)
	has := ex.mapHasT(st, st.heap, mt, a, k)
	n := ex.mapLen(st, st.heap, mt, a)
	ex.store(st, Loc{key: mk + "#has", a: a, i: k}, types.Typ[types.Bool], tb.fls)
	ex.store(st, Loc{key: mk + "#len", a: a}, types.Typ[types.Int], tb.Sub(n, tb.Ite(has, tb.one, tb.zero)))
}

// ---- slicing ----

func (ex *Exec) slice(st *State, f *Frame, i *ssa.Slice) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		f := st.top()
		tb := ex.tb
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return ex.get(st, v).(*Term)
		}
		lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
		if lo == nil {
			lo = tb.zero
		}
		switch b := x.(type) {
		case *SliceV:
			if hi == nil {
				hi = b.len
			}
			c := b.cap
			ok := tb.And(tb.Le(tb.zero, lo), tb.Le(lo, hi), tb.Le(hi, c))
			if mx != nil {
				ok = tb.And(tb.Le(tb.zero, lo), tb.Le(lo, hi), tb.Le(hi, mx), tb.Le(mx, c))
				c = mx
			}
			r := &SliceV{mkey: b.mkey, arr: b.arr, off: tb.Add(b.off, lo), len: tb.Sub(hi, lo), cap: tb.Sub(c, lo), snap: b.snap}
			if b.arr == tb.zero {
				r.off = tb.zero
			}
			do := func(st *State) []*State {
				st.top().regs[i] = r
				return states(st)
			}
			if f.pure {
				return do(st)
			}
			return ex.must(st, ok, "slice", i.Pos(), "slice bounds out of range", do)
		case *PtrV:
			at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			n := tb.Int(at.Len())
			if hi == nil {
				hi = n
			}
			c := n
			if mx != nil {
				c = mx
			}
			if b.loc.i != nil {
				panic(unsup("array in array"))
			}
			r := &SliceV{mkey: arrKey(b.loc.key), arr: b.loc.a, off: lo, len: tb.Sub(hi, lo), cap: tb.Sub(c, lo), snap: b.loc.snap}
			ok := tb.And(tb.Le(tb.zero, lo), tb.Le(lo, hi), tb.Le(hi, c), tb.Le(c, n), tb.Neq(b.loc.a, tb.zero))
			do := func(st *State) []*State {
				st.top().regs[i] = r
				return states(st)
			}
			if f.pure {
				return do(st)
			}
			return ex.must(st, ok, "slice", i.Pos(), "slice bounds out of range", do)
		case *Term: // string
			n := ex.strlen(b)
			if hi == nil {
				hi = n
			}
			ok := tb.And(tb.Le(tb.zero, lo), tb.Le(lo, hi), tb.Le(hi, n))
			do := func(st *State) []*State {
				if lo == tb.zero && hi == n {
					st.top().regs[i] = b
					return states(st)
				}
				st.top().regs[i] = ex.substr(b, lo, tb.Sub(hi, lo))
				return states(st)
			}
			if f.pure {
				return do(st)
			}
			return ex.must(st, ok, "slice", i.Pos(), "slice bounds out of range", do)
		}
		panic(unsup(fmt.Sprintf("slice of %T", x)))
	})
}

func (ex *Exec) substr(s, off, n *Term) *Term {
	tb := ex.tb
	if n == tb.zero {
		return tb.zero
	}
	if c, ok := tb.strOf[s]; ok && off.isConst() && n.isConst() {
		return ex.strConst(c[off.k.Int64() : off.k.Int64()+n.k.Int64()])
	}
	id := tb.App("substr", SInt, new(big.Int), nil, s, off, n)
	if _, ok := ex.seqm[id]; !ok {
		ex.seqm[id] = &seqRec{id: id, len: n, def: func(i *Term) *Term { return ex.strAt(s, tb.Add(off, i)) }}
		tb.AddFact(id, tb.Eq(tb.Eq(n, tb.zero), tb.Eq(id, tb.zero)))
	}
	return id
}

// ---- interfaces ----

func (ex *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) []*State {
	return ex.withVal(st, i.X, func(st *State, xv Val) []*State {
		tb := ex.tb
		x := xv.(*IfaceV)
		fail := func(st *State) []*State {
			if st == nil {
				return nil
			}
			if i.CommaOk {
				st.top().regs[i] = &TupleV{vs: []Val{ex.zeroVal(i.AssertedType), tb.fls}}
				return states(st)
			}
			st.isPan = true
			st.panicV = &IfaceV{tag: tb.Int(ex.eng.tag("runtime.Error")), val: ex.newRef(st)}
			st.panWhy = "type assertion failed"
			st.panPos = i.Pos()
			return states(st)
		}
		succ := func(st *State, v Val) []*State {
			if st == nil {
				return nil
			}
			if i.CommaOk {
				v = &TupleV{vs: []Val{v, tb.tru}}
			}
			st.top().regs[i] = v
			return states(st)
		}
		if isIface(i.AssertedType) {
			it := i.AssertedType.Underlying().(*types.Interface)
			if x.typ != nil {
				if types.Implements(x.typ, it) {
					a, b := ex.fork(st, tb.Neq(x.tag, tb.zero))
					out := succ(a, x)
					return append(out, fail(b)...)
				}
				return fail(st)
			}
			if it.NumMethods() == 0 || types.AssignableTo(i.X.Type(), i.AssertedType) {
				a, b := ex.fork(st, tb.Neq(x.tag, tb.zero))
				return append(succ(a, x), fail(b)...)
			}
			c := tb.And(tb.Neq(x.tag, tb.zero), tb.App("implements:"+typeKey(i.AssertedType), SBool, nil, nil, x.tag))
			a, b := ex.fork(st, c)
			return append(succ(a, x), fail(b)...)
		}
		tg := tb.Int(ex.eng.tag(typeKey(i.AssertedType)))
		if x.typ != nil {
			if !types.Identical(x.typ, i.AssertedType) {
				return fail(st)
			}
			a, b := ex.fork(st, tb.Eq(x.tag, tg))
			return append(succ(a, x.val), fail(b)...)
		}
		a, b := ex.fork(st, tb.Eq(x.tag, tg))
		var out []*State
		if a != nil {
			out = append(out, succ(a, ex.unbox(a, x.val.(*Term), i.AssertedType))...)
		}
		return append(out, fail(b)...)
	})
}

// unbox gives the concrete value of an opaque interface value of known type.
func (ex *Exec) unbox(st *State, d *Term, t types.Type) Val {
	tb := ex.tb
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &PtrV{loc: Loc{key: objKey(u.Elem()), a: d}}
	case *types.Basic:
		if isBool(t) {
			return tb.App("unboxb", SBool, nil, nil, d)
		}
		lo, hi := intRange(t)
		if isString(t) {
			lo = new(big.Int)
		}
		return tb.App("unbox:"+typeKey(t), SInt, lo, hi, d)
	case *types.Struct:
		s := &StructV{t: t}
		for j := 0; j < u.NumFields(); j++ {
			s.fs = append(s.fs, ex.loadH(&Heap{m: map[string]*Node{}, base: "box"}, Loc{key: "box:" + typeKey(t) + "." + u.Field(j).Name(), a: d}, u.Field(j).Type()))
		}
		return s
	case *types.Map, *types.Chan:
		return &RefV{t: d}
	case *types.Slice:
		return ex.loadH(&Heap{m: map[string]*Node{}, base: "box"}, Loc{key: "box:" + typeKey(t), a: d}, t)
	}
	panic(unsup("unbox " + t.String()))
}

// ---- range over maps and strings ----

func (ex *Exec) rangeInstr(st *State, f *Frame, i *ssa.Range) []*State {
	return ex.withVal(st, i.X, func(st *State, x Val) []*State {
		it := ex.newRef(st)
		f := st.top()
		switch b := x.(type) {
		case *RefV:
			k := "iter#seen"
			ex.keyT[k] = types.Typ[types.Bool]
			st.heap.m[k] = &Node{kind: NZero, prev: ex.node(st, k), a: it}
			ex.store(st, Loc{key: "iter#n", a: it}, types.Typ[types.Int], ex.tb.zero)
			mt := i.X.Type().Underlying().(*types.Map)
			if !f.pure {
				ex.mapAccess(st, b, mt, false, i.Pos())
			}
			ex.store(st, Loc{key: "iter#ver", a: it}, types.Typ[types.Int], ex.tb.zero)
			f.regs[i] = &RangeV{mp: b, typ: mt, iter: it, h0: st.heap.clone()}
		case *Term:
			ex.store(st, Loc{key: "iter#pos", a: it}, types.Typ[types.Int], ex.tb.zero)
			f.regs[i] = &RangeV{str: b, iter: it}
		default:
			panic(unsup("range over " + i.X.Type().String()))
		}
		return states(st)
	})
}

func (ex *Exec) nextInstr(st *State, f *Frame, i *ssa.Next) []*State {
	tb := ex.tb
	r := ex.get(st, i.Iter).(*RangeV)
	intT := types.Typ[types.Int]
	if r.mp == nil {
		pos := ex.load(st, Loc{key: "iter#pos", a: r.iter}, intT).(*Term)
		n := ex.strlen(r.str)
		more, end := ex.fork(st, tb.Lt(pos, n))
		var out []*State
		if end != nil {
			end.top().regs[i] = &TupleV{vs: []Val{tb.fls, tb.zero, tb.zero}}
			out = append(out, end)
		}
		if more != nil {
			b := ex.strAt(r.str, pos)
			asc, non := ex.fork(more, tb.Lt(b, tb.Int(128)))
			if asc != nil {
				ex.store(asc, Loc{key: "iter#pos", a: r.iter}, intT, tb.AddC(pos, 1))
				asc.top().regs[i] = &TupleV{vs: []Val{tb.tru, pos, b}}
				out = append(out, asc)
			}
			if non != nil {
				ex.assume["runes of non-ASCII strings over-approximated (any rune >= 0x80, width 1..4)"] = true
				w := tb.Fresh("runew", SInt, bigOne, big.NewInt(4))
				rn := tb.Fresh("rune", SInt, big.NewInt(128), big.NewInt(0x10FFFF))
				non.assume(tb.Le(tb.Add(pos, w), n))
				ex.store(non, Loc{key: "iter#pos", a: r.iter}, intT, tb.Add(pos, w))
				non.top().regs[i] = &TupleV{vs: []Val{tb.tru, pos, rn}}
				non.cutTaint = true
				out = append(out, non)
			}
		}
		return out
	}
	// maps: any unseen present key, or the end once every key that was never deleted has been seen
	kt := r.typ.Key()
	kind := "key:" + typeKey(kt)
	m := r.mp
	h := ex.heapOf(st, m.snap)
	n := ex.load(st, Loc{key: "iter#n", a: r.iter}, intT).(*Term)
	ml := ex.mapLen(st, h, r.typ, m.t)
	end := st.clone()
	more := st
	bv := tb.BV(kind, 98)
	seen := func(s *State, k *Term) *Term {
		return ex.readLeaf(s.heap, "iter#seen", types.Typ[types.Bool], r.iter, k).(*Term)
	}
	if keys, ok := ex.knownKeys(h, r.typ, m.t); ok {
		var out []*State
		left := tb.tru
		for _, k := range keys {
			left = tb.And(left, tb.Or(tb.Not(ex.mapHasT(st, h, r.typ, m.t, k)), tb.Not(ex.mapHasT(st, r.h0, r.typ, m.t, k)), seen(st, k)))
		}
		end.assume(left)
		if ex.feasiblePC(end) {
			end.top().regs[i] = &TupleV{vs: []Val{tb.fls, ex.zeroVal(kt), ex.zeroValOr(r.typ.Elem())}}
			out = append(out, end)
		}
		for _, k := range keys {
			s := st.clone()
			s.assume(tb.And(ex.mapHasT(s, h, r.typ, m.t, k), tb.Not(seen(s, k))))
			if !ex.feasiblePC(s) {
				continue
			}
			ex.store(s, Loc{key: "iter#seen", a: r.iter, i: k}, types.Typ[types.Bool], tb.tru)
			ex.store(s, Loc{key: "iter#n", a: r.iter}, intT, tb.AddC(n, 1))
			s.top().regs[i] = &TupleV{vs: []Val{tb.tru, ex.keyVal(k, kt), ex.mapVal(s, h, r.typ, m.t, k)}}
			out = append(out, s)
		}
		return out
	}
	end.assume(tb.Forall(kind, bv, tb.Or(tb.Not(ex.mapHasT(end, ex.heapOf(end, m.snap), r.typ, m.t, bv)), tb.Not(ex.mapHasT(end, r.h0, r.typ, m.t, bv)), seen(end, bv))))
	same := ex.sameMap(end, r)
	if same {
		end.assume(tb.Eq(n, ml))
	}
	var out []*State
	if ex.feasiblePC(end) {
		end.top().regs[i] = &TupleV{vs: []Val{tb.fls, ex.zeroVal(kt), ex.zeroValOr(r.typ.Elem())}}
		out = append(out, end)
	}
	k := tb.Fresh("rk", SInt, nil, nil)
	if lo, hi := intRange(kt); lo != nil {
		k = tb.Fresh("rk", SInt, lo, hi)
	} else if isString(kt) {
		k = tb.Fresh("rk", SInt, new(big.Int), nil)
	} else if _, ok := kt.Underlying().(*types.Array); ok {
		k = tb.Fresh("rk", SInt, new(big.Int), nil)
	}
	more.assume(ex.mapHasT(more, h, r.typ, m.t, k))
	more.assume(tb.Not(seen(more, k)))
	if same {
		more.assume(tb.Lt(n, ml))
	}
	more.addCand(kind, k)
	if ex.feasiblePC(more) {
		ex.store(more, Loc{key: "iter#seen", a: r.iter, i: k}, types.Typ[types.Bool], tb.tru)
		ex.store(more, Loc{key: "iter#n", a: r.iter}, intT, tb.AddC(n, 1))
		more.top().regs[i] = &TupleV{vs: []Val{tb.tru, ex.keyVal(k, kt), ex.mapVal(more, h, r.typ, m.t, k)}}
		out = append(out, more)
	}
	return out
}

// knownKeys lists every key a map made in this unit may have, if they are known.
func (ex *Exec) knownKeys(h *Heap, mt *types.Map, ref *Term) ([]*Term, bool) {
	tb := ex.tb
	var keys []*Term
	for n := h.m[mapKeyName(mt)+"#has"]; n != nil; n = n.prev {
		if n.kind != NStore && n.kind != NZero {
			return nil, false
		}
		switch ex.sameRef(ref, n.a) {
		case tb.fls:
		case tb.tru:
			if n.kind == NZero {
				return keys, true
			}
			dup := false
			for _, k := range keys {
				dup = dup || k == n.i
			}
			if !dup {
				keys = append(keys, n.i)
			}
			if len(keys) > 6 {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return nil, false
}

func (ex *Exec) zeroValOr(t types.Type) Val { return ex.zeroVal(t) }

// sameMap tells whether the map's key set is syntactically unchanged since the iteration began.
func (ex *Exec) sameMap(st *State, r *RangeV) bool {
	if r.mp.snap != nil {
		return true
	}
	mk := mapKeyName(r.typ)
	return st.heap.m[mk+"#has"] == r.h0.m[mk+"#has"] && st.heap.base == r.h0.base
}
