package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type NodeKind uint8

const (
	NStore NodeKind = iota
	NZero           // whole object a zero
	NHavocObj
	NHavocAll
	NCopy
	NHavocRange
)

type Node struct {
	kind NodeKind
	prev *Node
	a, i *Term
	val  Val
	ver  string
	n    *Term // copy length
	// copy source
	sh   *Node
	skey string
	sver string
	sa   *Term
	soff *Term
	sstr *Term // copy from string
	n256 *tableInfo
}

type tableInfo struct{}

type Heap struct {
	m    map[string]*Node
	base string // version of keys without nodes
}

func (h *Heap) clone() *Heap {
	m := make(map[string]*Node, len(h.m))
	for k, v := range h.m {
		m[k] = v
	}
	return &Heap{m: m, base: h.base}
}

// pickSnap is the heap view of a merged reference (a null reference has none).
func pickSnap(aNull bool, a, b *Heap) *Heap {
	if aNull {
		return b
	}
	return a
}

// opaqueData is the term that stands for the dynamic value where its type is not known: the address
// of a pointer.
func opaqueData(v *IfaceV) (*Term, bool) {
	switch x := v.val.(type) {
	case *Term:
		return x, v.typ == nil
	case *PtrV:
		return x.loc.a, x.loc.i == nil && x.loc.snap == nil && x.nilT == nil && x.loc.key == objKey(v.typ.Underlying().(*types.Pointer).Elem())
	}
	return nil, false
}

// MuxV is an unmerged choice: the executor forks on it.
type MuxV struct {
	c    *Term
	x, y Val
}

func (ex *Exec) leafType(key string, t types.Type) { ex.keyT[key] = t }

// baseLeaf is the value of leaf key at object a (index i) in heap version ver.
func (ex *Exec) baseLeaf(key, ver string, t types.Type, a, i *Term) Val {
	tb := ex.tb
	args := []*Term{a}
	if i != nil {
		args = append(args, i)
	}
	name := key + "@" + ver
	mk := func(sfx string, s Sort, lo, hi *big.Int) *Term { return tb.App(name+sfx, s, lo, hi, args...) }
	lo0 := ex.verLo(ver)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			r := mk("", SBool, nil, nil)
			if strings.HasSuffix(key, "#has") {
				ex.mapHasFacts(name, r, a, i, ver, key)
			}
			return r
		}
		if isString(t) {
			r := mk("", SInt, new(big.Int), nil)
			return r
		}
		if u.Kind() == types.UnsafePointer {
			return mk("", SInt, nil, nil)
		}
		if isFloat(t) {
			return mk("", SInt, nil, nil)
		}
		lo, hi := intRange(t)
		if strings.HasSuffix(key, "#len") {
			lo, hi = new(big.Int), maxSz
			r := mk("", SInt, lo, hi)
			if !r.bvs {
				tb.AddFact(r, tb.Or(tb.Neq(a, tb.zero), tb.Eq(r, tb.zero)))
			}
			return r
		}
		return mk("", SInt, lo, hi)
	case *types.Pointer:
		return &PtrV{loc: Loc{key: objKey(u.Elem()), a: mk("", SInt, lo0, nil)}}
	case *types.Slice:
		s := &SliceV{mkey: memKey(typeKey(u.Elem())), arr: mk(".arr", SInt, lo0, nil), off: mk(".off", SInt, new(big.Int), maxSz),
			len: mk(".len", SInt, new(big.Int), maxSz), cap: mk(".cap", SInt, new(big.Int), maxSz)}
		ex.sliceFacts(s)
		return s
	case *types.Map, *types.Chan:
		return &RefV{t: mk("", SInt, lo0, nil)}
	case *types.Signature:
		return &FuncV{t: mk("", SInt, new(big.Int), nil)}
	case *types.Interface:
		d := mk(".dat", SInt, lo0, nil)
		return &IfaceV{tag: mk(".tag", SInt, new(big.Int), nil), val: d}
	}
	panic(fmt.Sprintf("baseLeaf %s %v", key, t))
}

func (ex *Exec) sliceFacts(s *SliceV) {
	tb := ex.tb
	if s.len.bvs || s.len.isConst() {
		return
	}
	f := tb.And(tb.Le(s.len, s.cap), tb.Imp(tb.Eq(s.arr, tb.zero), tb.Eq(s.cap, tb.zero)))
	tb.AddFact(s.len, f)
	if !s.cap.isConst() {
		tb.AddFact(s.cap, f)
	}
}

func (ex *Exec) verLo(ver string) *big.Int {
	if l, ok := ex.verLow[ver]; ok {
		return l
	}
	return new(big.Int)
}

func (ex *Exec) mapHasFacts(name string, r, a, k *Term, ver, key string) {
	tb := ex.tb
	if r.bvs {
		return
	}
	lenKey := strings.TrimSuffix(key, "#has") + "#len"
	ln := ex.baseLeaf(lenKey, ver, types.Typ[types.Int], a, nil).(*Term)
	tb.AddFact(r, tb.Or(tb.Not(r), tb.And(tb.Ge(ln, tb.one), tb.Neq(a, tb.zero))))
}

// hasPair: a map with two different keys has at least two entries.
func (ex *Exec) hasPair(r, o *Term) *Term {
	tb := ex.tb
	j := strings.LastIndex(r.name, "@")
	lenKey := strings.TrimSuffix(r.name[:j], "#has") + "#len"
	ln := ex.baseLeaf(lenKey, r.name[j+1:], types.Typ[types.Int], r.args[0], nil).(*Term)
	return tb.Or(tb.Not(r), tb.Not(o), tb.Neq(r.args[0], o.args[0]), tb.Eq(r.args[1], o.args[1]), tb.Ge(ln, tb.Int(2)))
}

func (ex *Exec) zeroVal(t types.Type) Val {
	tb := ex.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return tb.fls
		}
		if isString(t) {
			return ex.strConst("")
		}
		return tb.zero
	case *types.Pointer:
		return &PtrV{loc: Loc{key: objKey(u.Elem()), a: tb.zero}}
	case *types.Slice:
		return &SliceV{mkey: memKey(typeKey(u.Elem())), arr: tb.zero, off: tb.zero, len: tb.zero, cap: tb.zero}
	case *types.Map, *types.Chan:
		return &RefV{t: tb.zero}
	case *types.Signature:
		return &FuncV{t: tb.zero}
	case *types.Interface:
		return &IfaceV{tag: tb.zero, val: tb.zero}
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, ex.zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &ArrayV{t: t}
		if u.Len() > 1024 {
			panic(unsup("large array value"))
		}
		for i := int64(0); i < u.Len(); i++ {
			s.es = append(s.es, ex.zeroVal(u.Elem()))
		}
		return s
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.vs = append(s.vs, ex.zeroVal(u.At(i).Type()))
		}
		return s
	}
	panic(unsup(fmt.Sprintf("zero value of %v", t)))
}

type unsupported struct{ msg string }

func unsup(m string) unsupported { return unsupported{m} }

func (ex *Exec) sameRef(a, b *Term) *Term { return ex.tb.Eq(a, b) }

// mergeVal builds c ? x : y.
func (ex *Exec) mergeVal(c *Term, x, y Val) Val {
	tb := ex.tb
	if c == tb.tru {
		return x
	}
	if c == tb.fls {
		return y
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok {
			return tb.Ite(c, a, b)
		}
	case *PtrV:
		if b, ok := y.(*PtrV); ok && (a.loc.snap == b.loc.snap || a.loc.a == tb.zero || b.loc.a == tb.zero) {
			ak, bk := a.loc.key, b.loc.key
			if a.loc.a == tb.zero {
				ak = bk
			}
			if b.loc.a == tb.zero {
				bk = ak
			}
			if ak == bk && (a.loc.i == nil) == (b.loc.i == nil) {
				var i *Term
				if a.loc.i != nil {
					i = tb.Ite(c, a.loc.i, b.loc.i)
				}
				p := a.prov
				if b.prov == nil || p == nil || b.prov.key != p.key || b.prov.a != p.a {
					p = nil
				}
				return &PtrV{loc: Loc{key: ak, a: tb.Ite(c, a.loc.a, b.loc.a), i: i, snap: pickSnap(a.loc.a == tb.zero, a.loc.snap, b.loc.snap)}, prov: p}
			}
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok && (a.snap == b.snap || a.arr == tb.zero || b.arr == tb.zero) {
			ak, bk := a.mkey, b.mkey
			if a.arr == tb.zero {
				ak = bk
			}
			if b.arr == tb.zero {
				bk = ak
			}
			if ak == bk {
				return &SliceV{mkey: ak, arr: tb.Ite(c, a.arr, b.arr), off: tb.Ite(c, a.off, b.off), len: tb.Ite(c, a.len, b.len), cap: tb.Ite(c, a.cap, b.cap), snap: pickSnap(a.arr == tb.zero, a.snap, b.snap)}
			}
		}
	case *RefV:
		if b, ok := y.(*RefV); ok && (a.snap == b.snap || a.t == tb.zero || b.t == tb.zero) {
			p := a.prov
			if b.prov == nil || p == nil || b.prov.key != p.key || b.prov.a != p.a {
				p = nil
			}
			return &RefV{t: tb.Ite(c, a.t, b.t), prov: p, snap: pickSnap(a.t == tb.zero, a.snap, b.snap)}
		}
	case *FuncV:
		if b, ok := y.(*FuncV); ok {
			if a == b {
				return a
			}
			if a.fn == nil && b.fn == nil && a.blt == "" && b.blt == "" {
				return &FuncV{t: tb.Ite(c, a.t, b.t)}
			}
		}
	case *IfaceV:
		if b, ok := y.(*IfaceV); ok {
			if a == b {
				return a
			}
			if a.tag == tb.zero && a.typ == nil {
				return &IfaceV{tag: tb.Ite(c, tb.zero, b.tag), typ: b.typ, val: b.val}
			}
			if b.tag == tb.zero && b.typ == nil {
				return &IfaceV{tag: tb.Ite(c, a.tag, tb.zero), typ: a.typ, val: a.val}
			}
			if a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
				return &IfaceV{tag: tb.Ite(c, a.tag, b.tag), typ: a.typ, val: ex.mergeVal(c, a.val, b.val)}
			}
			if a.typ == nil || b.typ == nil {
				at, ok1 := opaqueData(a)
				bt, ok2 := opaqueData(b)
				if ok1 && ok2 {
					return &IfaceV{tag: tb.Ite(c, a.tag, b.tag), val: tb.Ite(c, at, bt)}
				}
			}
		}
	case *StructV:
		if b, ok := y.(*StructV); ok {
			r := &StructV{t: a.t}
			for i := range a.fs {
				r.fs = append(r.fs, ex.mergeVal(c, a.fs[i], b.fs[i]))
			}
			return r
		}
	case *ArrayV:
		if b, ok := y.(*ArrayV); ok {
			r := &ArrayV{t: a.t}
			for i := range a.es {
				r.es = append(r.es, ex.mergeVal(c, a.es[i], b.es[i]))
			}
			return r
		}
	case *TupleV:
		if b, ok := y.(*TupleV); ok {
			r := &TupleV{}
			for i := range a.vs {
				r.vs = append(r.vs, ex.mergeVal(c, a.vs[i], b.vs[i]))
			}
			return r
		}
	case nil:
		if y == nil {
			return nil
		}
	}
	return &MuxV{c, x, y}
}

// readNode reads leaf key at (a,i) starting from node n.
func (ex *Exec) readNode(n *Node, key, base string, t types.Type, a, i *Term) Val {
	tb := ex.tb
	for {
		if n == nil {
			return ex.baseLeaf(key, base, t, a, i)
		}
		switch n.kind {
		case NStore:
			c := ex.sameRef(a, n.a)
			if n.i != nil && i != nil {
				c = tb.And(c, tb.Eq(i, n.i))
			}
			if c == tb.tru {
				return n.val
			}
			if c == tb.fls {
				n = n.prev
				continue
			}
			if v, rest, ok := ex.tableRead(n, a, i); ok {
				// run of constant stores collapsed into an affine piecewise expression
				return ex.mergeVal(rest.c, v, ex.readNode(rest.n, key, base, t, a, i))
			}
			return ex.mergeVal(c, n.val, ex.readNode(n.prev, key, base, t, a, i))
		case NZero:
			c := ex.sameRef(a, n.a)
			if c == tb.tru {
				return ex.zeroVal(t)
			}
			if c == tb.fls {
				n = n.prev
				continue
			}
			return ex.mergeVal(c, ex.zeroVal(t), ex.readNode(n.prev, key, base, t, a, i))
		case NHavocObj:
			c := ex.sameRef(a, n.a)
			if c == tb.fls {
				n = n.prev
				continue
			}
			return ex.mergeVal(c, ex.baseLeaf(key, n.ver, t, a, i), ex.readNode(n.prev, key, base, t, a, i))
		case NHavocAll:
			return ex.baseLeaf(key, n.ver, t, a, i)
		case NHavocRange:
			c := tb.And(ex.sameRef(a, n.a), tb.Le(n.i, i), tb.Lt(i, tb.Add(n.i, n.n)))
			if c == tb.fls {
				n = n.prev
				continue
			}
			return ex.mergeVal(c, ex.baseLeaf(key, n.ver, t, a, i), ex.readNode(n.prev, key, base, t, a, i))
		case NCopy:
			c := tb.And(ex.sameRef(a, n.a), tb.Le(n.i, i), tb.Lt(i, tb.Add(n.i, n.n)))
			if c == tb.fls {
				n = n.prev
				continue
			}
			var v Val
			idx := tb.Add(tb.Sub(i, n.i), n.soff)
			if n.sstr != nil {
				v = ex.strAt(n.sstr, idx)
			} else {
				v = ex.readNode(n.sh, n.skey, n.sver, t, n.sa, idx)
			}
			return ex.mergeVal(c, v, ex.readNode(n.prev, key, base, t, a, i))
		}
		panic("node kind")
	}
}

type tableRest struct {
	c *Term
	n *Node
}

// tableRead collapses runs of constant-index stores of constants (lookup tables) into ranges
// of the form value = index + d.
func (ex *Exec) tableRead(n *Node, a, i *Term) (Val, tableRest, bool) {
	tb := ex.tb
	if i == nil || i.isConst() || n.i == nil || !n.i.isConst() {
		return nil, tableRest{}, false
	}
	vals := map[int64]int64{}
	var lo, hi int64 = 1 << 62, -1
	m := n
	for m != nil && m.kind == NStore && m.a == n.a && m.i != nil && m.i.isConst() {
		t, ok := m.val.(*Term)
		if !ok || !t.isConst() || !t.k.IsInt64() || !m.i.k.IsInt64() {
			break
		}
		ix := m.i.k.Int64()
		if _, dup := vals[ix]; !dup {
			vals[ix] = t.k.Int64()
		}
		if ix < lo {
			lo = ix
		}
		if ix > hi {
			hi = ix
		}
		m = m.prev
	}
	if len(vals) < 12 || int64(len(vals)) != hi-lo+1 {
		return nil, tableRest{}, false
	}
	// piecewise affine
	var res *Term
	j := hi
	for j >= lo {
		s := j
		d := vals[j] - j
		for s-1 >= lo && vals[s-1]-(s-1) == d {
			s--
		}
		v := tb.AddC(i, d)
		if s == j {
			v = tb.Int(vals[j])
		}
		if res == nil {
			res = v
		} else {
			// i <= j ? v : res   (built from the top down)
			res = tb.Ite(tb.Le(i, tb.Int(j)), v, res)
		}
		j = s - 1
	}
	c := tb.And(ex.sameRef(a, n.a), tb.Le(tb.Int(lo), i), tb.Le(i, tb.Int(hi)))
	// value interval is known inside the range
	return res, tableRest{c, m}, true
}

func (ex *Exec) readLeaf(h *Heap, key string, t types.Type, a, i *Term) Val {
	ex.keyT[key] = t
	n := h.m[key]
	return ex.readNode(n, key, h.base, t, a, i)
}

// load reads a value of type t at loc.
func (ex *Exec) load(st *State, loc Loc, t types.Type) Val {
	h := st.heap
	if loc.snap != nil {
		h = loc.snap
	}
	v := ex.loadH(h, loc, t)
	return ex.withProv(v, loc)
}

func (ex *Exec) withProv(v Val, loc Loc) Val {
	if loc.i != nil {
		if loc.snap == nil {
			return v
		}
	}
	pr := &Prov{loc.key, loc.a}
	switch x := v.(type) {
	case *PtrV:
		c := *x
		c.prov = pr
		if loc.snap != nil {
			c.loc.snap = loc.snap
		}
		return &c
	case *RefV:
		c := *x
		c.prov = pr
		if loc.snap != nil {
			c.snap = loc.snap
		}
		return &c
	case *FuncV:
		c := *x
		c.prov = pr
		return &c
	case *SliceV:
		c := *x
		if loc.snap != nil {
			c.snap = loc.snap
		}
		c.prov = pr
		return &c
	}
	return v
}

func (ex *Exec) loadH(h *Heap, loc Loc, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, ex.loadH(h, Loc{key: loc.key + "." + u.Field(i).Name(), a: loc.a, i: loc.i}, u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := &ArrayV{t: t}
		if loc.i != nil {
			panic(unsup("array inside array element"))
		}
		if u.Len() > 1024 {
			panic(unsup("large array load"))
		}
		for i := int64(0); i < u.Len(); i++ {
			s.es = append(s.es, ex.loadH(h, Loc{key: arrKey(loc.key), a: loc.a, i: ex.tb.Int(i)}, u.Elem()))
		}
		return s
	}
	return ex.readLeaf(h, loc.key, t, loc.a, loc.i)
}

func (ex *Exec) store(st *State, loc Loc, t types.Type, v Val) {
	if loc.snap != nil {
		panic(unsup("store through snapshot pointer"))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			panic(unsup(fmt.Sprintf("store struct from %T", v)))
		}
		for i := 0; i < u.NumFields(); i++ {
			ex.store(st, Loc{key: loc.key + "." + u.Field(i).Name(), a: loc.a, i: loc.i}, u.Field(i).Type(), s.fs[i])
		}
		return
	case *types.Array:
		s, ok := v.(*ArrayV)
		if !ok {
			panic(unsup(fmt.Sprintf("store array from %T", v)))
		}
		if loc.i != nil {
			panic(unsup("array inside array element"))
		}
		for i := range s.es {
			ex.store(st, Loc{key: arrKey(loc.key), a: loc.a, i: ex.tb.Int(int64(i))}, u.Elem(), s.es[i])
		}
		return
	}
	ex.keyT[loc.key] = t
	ex.noteWrite(st, loc.key, loc.a)
	st.heap.m[loc.key] = &Node{kind: NStore, prev: ex.node(st, loc.key), a: loc.a, i: loc.i, val: v}
}

// node returns the current chain of a key, materialising the base version.
func (ex *Exec) node(st *State, key string) *Node {
	n := st.heap.m[key]
	if n == nil && st.heap.base != "0" {
		n = &Node{kind: NHavocAll, ver: st.heap.base}
	}
	return n
}

// leafKeys enumerates the leaf keys (with types) below key of type t.
func (ex *Exec) leafKeys(key string, t types.Type, f func(key string, t types.Type, arr bool)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.leafKeys(key+"."+u.Field(i).Name(), u.Field(i).Type(), f)
		}
	case *types.Array:
		ex.leafKeys(arrKey(key), u.Elem(), func(k string, t types.Type, _ bool) { f(k, t, true) })
	default:
		f(key, t, false)
	}
}

// zeroInit makes all leaves of a fresh object zero.
func (ex *Exec) zeroInit(st *State, key string, t types.Type, a *Term) {
	ex.leafKeys(key, t, func(k string, lt types.Type, arr bool) {
		ex.keyT[k] = lt
		st.heap.m[k] = &Node{kind: NZero, prev: ex.node(st, k), a: a}
	})
}

func (ex *Exec) newRef(st *State) *Term {
	st.nalloc++
	return ex.tb.Int(-int64(st.nalloc))
}

func (ex *Exec) freshVer(st *State) string {
	ex.nver++
	v := fmt.Sprintf("%d", ex.nver)
	ex.verLow[v] = big.NewInt(-int64(st.nalloc))
	return v
}

func (ex *Exec) havocObj(st *State, key string, t types.Type, a *Term, ver string) {
	ex.leafKeys(key, t, func(k string, lt types.Type, arr bool) {
		ex.keyT[k] = lt
		ex.noteWrite(st, k, a)
		st.heap.m[k] = &Node{kind: NHavocObj, prev: ex.node(st, k), a: a, ver: ver}
	})
}

func (ex *Exec) havocLoc(st *State, loc Loc, t types.Type, ver string) {
	ex.leafKeys(loc.key, t, func(k string, lt types.Type, arr bool) {
		ex.keyT[k] = lt
		ex.noteWrite(st, k, loc.a)
		if loc.i != nil {
			st.heap.m[k] = &Node{kind: NHavocRange, prev: ex.node(st, k), a: loc.a, i: loc.i, n: ex.tb.one, ver: ver}
		} else {
			st.heap.m[k] = &Node{kind: NHavocObj, prev: ex.node(st, k), a: loc.a, ver: ver}
		}
	})
}

func (ex *Exec) havocKey(st *State, key string, ver string) {
	ex.noteWrite(st, key, nil)
	st.heap.m[key] = &Node{kind: NHavocAll, ver: ver}
}

// noteWrite records writes for loop frame inference.
func (ex *Exec) noteWrite(st *State, key string, a *Term) {
	for _, w := range st.wlogs {
		w.add(key, a)
	}
}

type wlog struct {
	keys map[string]map[*Term]bool // nil term: whole key
}

func (w *wlog) add(key string, a *Term) {
	if w.keys[key] == nil {
		w.keys[key] = map[*Term]bool{}
	}
	w.keys[key][a] = true
}

// objKey is the heap key of an object of type t that is allocated on its own.
func objKey(t types.Type) string {
	if a, ok := t.Underlying().(*types.Array); ok {
		return "arr:" + typeKey(a.Elem())
	}
	return typeKey(t)
}

// arrKey is the memory key of the elements of the array at key k.
func arrKey(k string) string {
	if strings.HasPrefix(k, "arr:") {
		return memKey(k[4:])
	}
	return k + "[]"
}

// memKey is the memory key of slice elements with type key k (different from the key of a
// variable of slice type).
func memKey(k string) string { return "[]" + k + "|" }
