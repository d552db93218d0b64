package main

// bytes.Buffer and recursively defined texts (vrt.Scan).

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// scanDef is a text defined by a left-to-right scan of an input: a recursive definition given by
// uninterpreted functions (scan positions, output length and bytes) with unfolding facts.
type scanDef struct {
	id   int
	n    *Term
	step func(st *State, i *Term) []pureLeaf
	st   *State
}

func (ex *Exec) scanName(sc *scanDef, what string) string {
	return fmt.Sprintf("scan#%s@%d", what, sc.id)
}

// at: position i of the scan is a step boundary; facts unfold the definition there.
func (ex *Exec) scanReach(sc *scanDef, i *Term, unfold bool) *Term {
	tb := ex.tb
	r := tb.App(ex.scanName(sc, "reach"), SBool, nil, nil, i)
	if unfold && !i.bvs && i.op != "lin" && !i.isConst() {
		for _, f := range ex.scanFacts(sc, i) {
			tb.AddFact(r, f)
		}
	}
	return r
}

// scanFacts unfolds the definition at position i.
func (ex *Exec) scanFacts(sc *scanDef, i *Term) (out []*Term) {
	tb := ex.tb
	g := tb.And(ex.scanReach(sc, i, false), tb.Le(tb.zero, i), tb.Lt(i, sc.n))
	for _, l := range sc.step(sc.st, i) {
		s := l.v.(*StructV)
		next, n := s.fs[0].(*Term), s.fs[1].(*Term)
		fs := []*Term{ex.scanReach(sc, next, false), tb.Gt(next, i), tb.Eq(ex.scanLen(sc, next), tb.Add(ex.scanLen(sc, i), n))}
		for j := 0; j+2 < len(s.fs); j++ {
			fs = append(fs, tb.Imp(tb.Lt(tb.Int(int64(j)), n), tb.Eq(ex.scanByte(sc, tb.AddC(ex.scanLen(sc, i), int64(j))), s.fs[j+2].(*Term))))
		}
		out = append(out, tb.Imp(tb.And(g, l.c), tb.And(fs...)))
	}
	return
}

func (ex *Exec) scanLen(sc *scanDef, i *Term) *Term {
	if i == ex.tb.zero {
		return ex.tb.zero
	}
	t := ex.tb.App(ex.scanName(sc, "len"), SInt, new(big.Int), maxSz, i)
	if !t.bvs {
		ex.tb.AddFact(t, ex.tb.Imp(ex.tb.Eq(i, ex.tb.zero), ex.tb.Eq(t, ex.tb.zero)))
	}
	return t
}

func (ex *Exec) scanByte(sc *scanDef, k *Term) *Term {
	return ex.tb.App(ex.scanName(sc, "byte"), SInt, new(big.Int), big255, k)
}

// scanCands: a loop over the input of a scan keeps its output so far equal to the scanned text.
func (c *cutCtx) scanCands(ints []*pseudo, backs []*State) []cand {
	ex := c.ex
	tb := ex.tb
	var out []cand
	bv := tb.BV("int", 93)
	for _, sc := range ex.scans {
		sc := sc
		for _, p := range ints {
			p := p
			if p.shift || strings.Contains(p.name, "@") {
				continue
			}
			out = append(out, cand{fmt.Sprintf("scanreach%d:%s", sc.id, p.name), func(st *State) *Term { return ex.scanReach(sc, p.get(st), true) }})
			for _, q := range ints {
				q := q
				if p != q {
					out = append(out, cand{fmt.Sprintf("scanlen%d:%s:%s", sc.id, p.name, q.name), func(st *State) *Term {
						return tb.Eq(ex.scanLen(sc, p.get(st)), q.get(st))
					}})
				}
			}
			var ks []string
			for k := range c.w {
				if strings.HasPrefix(k, "[]") {
					ks = append(ks, k)
				}
			}
			for _, k := range ks {
				t := ex.keyT[k]
				if t == nil || !isLeaf(t) {
					continue
				}
				if _, _, ok := intInfo(t); !ok {
					continue
				}
				for a := range c.w[k] {
					if a == nil {
						continue
					}
					a, k := a, k
					out = append(out, cand{fmt.Sprintf("scantext%d:%s:%s:%d", sc.id, p.name, k, a.id), func(st *State) *Term {
						rd, ok := ex.readLeaf(st.heap, k, t, a, bv).(*Term)
						if !ok {
							return nil
						}
						return tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(tb.zero, bv), tb.Lt(bv, ex.scanLen(sc, p.get(st)))), tb.Eq(rd, ex.scanByte(sc, bv))))
					}})
				}
			}
		}
	}
	return out
}

func registerStrIntrinsics(m map[string]Intrinsic) {
	v := func(name string, h Intrinsic) { m[vrtPath+"."+name] = h }
	v("Scan", func(ex *Exec, st *State, c *CallCtx) []*State {
		tb := ex.tb
		f := c.args[1]
		sc := &scanDef{id: len(ex.scans) + 1, n: c.args[0].(*Term), st: st.clone()}
		fv := f.(*FuncV)
		sc.step = func(st *State, i *Term) []pureLeaf { return ex.evalLeaves(st, fv.fn, []Val{i}, fv.bind) }
		ex.scans = append(ex.scans, sc)
		st.assume(ex.scanReach(sc, tb.zero, false))
		return c.done(st, tb.Int(int64(sc.id)))
	})
	v("ScanIs", func(ex *Exec, st *State, c *CallCtx) []*State {
		tb := ex.tb
		h, ok := c.args[0].(*Term)
		if !ok || !h.isConst() {
			panic(unsup("ScanIs of an unknown scan"))
		}
		sc := ex.scans[h.k.Int64()-1]
		s := c.args[1].(*SliceV)
		hp := ex.heapOf(st, s.snap)
		bv := tb.BV("int", ex.qdepth)
		rd := ex.readLeaf(hp, s.mkey, types.Typ[types.Uint8], s.arr, tb.Add(s.off, bv)).(*Term)
		t := tb.And(ex.scanReach(sc, sc.n, false), tb.Eq(s.len, ex.scanLen(sc, sc.n)),
			tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(tb.zero, bv), tb.Lt(bv, s.len)), tb.Eq(rd, ex.scanByte(sc, bv)))))
		if ex.opts.unroll > 0 {
			var fs []*Term
			for i := int64(0); i <= 12; i++ {
				fs = append(fs, ex.scanFacts(sc, tb.Int(i))...)
			}
			t = tb.Imp(tb.And(fs...), t)
		}
		return c.done(st, t)
	})

	// bytes.Buffer as a write-only accumulator: the length lives in the field off, the contents in
	// their own memory; taking the contents out copies them.
	buf := func(ex *Exec, c *CallCtx) (key string, a *Term, data string) {
		p := c.args[0].(*PtrV)
		if p.loc.i != nil || p.loc.snap != nil {
			panic(unsup("bytes.Buffer in an array"))
		}
		data = "[]bb:" + p.loc.key + "|"
		ex.keyT[data] = types.Typ[types.Uint8]
		ex.keyT[p.loc.key+".off"] = types.Typ[types.Int]
		return p.loc.key + ".off", p.loc.a, data
	}
	intT := types.Typ[types.Int]
	length := func(ex *Exec, st *State, key string, a *Term) *Term {
		n := ex.load(st, Loc{key: key, a: a}, intT).(*Term)
		st.assume(ex.tb.Ge(n, ex.tb.zero))
		return n
	}
	on := func(name string, k func(ex *Exec, st *State, c *CallCtx) []*State) {
		m["(*bytes.Buffer)."+name] = func(ex *Exec, st *State, c *CallCtx) []*State {
			if st.top().pure {
				panic(unsup("bytes.Buffer in a specification"))
			}
			ex.trust("bytes.Buffer accumulates exactly the bytes written to it")
			p, ok := c.args[0].(*PtrV)
			if !ok {
				panic(unsup("bytes.Buffer receiver"))
			}
			return ex.must(st, ex.tb.Neq(p.loc.a, ex.tb.zero), "nil-deref", instrPos(c.instr), "nil bytes.Buffer", func(st *State) []*State {
				return k(ex, st, c)
			})
		}
	}
	on("Write", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		s := c.args[1].(*SliceV)
		l := length(ex, st, key, a)
		h := st.heap
		if s.snap != nil {
			h = s.snap
		}
		ex.noteWrite(st, data, a)
		st.heap.m[data] = &Node{kind: NCopy, prev: ex.node(st, data), a: a, i: l, n: s.len, sh: h.m[s.mkey], skey: s.mkey, sver: h.base, sa: s.arr, soff: s.off}
		ex.store(st, Loc{key: key, a: a}, intT, ex.tb.Add(l, s.len))
		return c.done(st, &TupleV{vs: []Val{s.len, ex.nilIface()}})
	})
	on("WriteString", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		s := c.args[1].(*Term)
		l := length(ex, st, key, a)
		n := ex.strlen(s)
		ex.noteWrite(st, data, a)
		st.heap.m[data] = &Node{kind: NCopy, prev: ex.node(st, data), a: a, i: l, n: n, soff: ex.tb.zero, sstr: s}
		ex.store(st, Loc{key: key, a: a}, intT, ex.tb.Add(l, n))
		return c.done(st, &TupleV{vs: []Val{n, ex.nilIface()}})
	})
	on("WriteByte", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		l := length(ex, st, key, a)
		ex.noteWrite(st, data, a)
		st.heap.m[data] = &Node{kind: NStore, prev: ex.node(st, data), a: a, i: l, val: c.args[1]}
		ex.store(st, Loc{key: key, a: a}, intT, ex.tb.AddC(l, 1))
		return c.done(st, ex.nilIface())
	})
	on("WriteRune", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		tb := ex.tb
		r := c.args[1].(*Term)
		l := length(ex, st, key, a)
		put := func(st *State, bs ...*Term) []*State {
			if st == nil {
				return nil
			}
			for i, b := range bs {
				ex.noteWrite(st, data, a)
				st.heap.m[data] = &Node{kind: NStore, prev: ex.node(st, data), a: a, i: tb.AddC(l, int64(i)), val: b}
			}
			n := tb.Int(int64(len(bs)))
			ex.store(st, Loc{key: key, a: a}, intT, tb.Add(l, n))
			return c.done(st, &TupleV{vs: []Val{n, ex.nilIface()}})
		}
		at := func(div, mod int64, add int64) *Term {
			x := tb.Div(r, big.NewInt(div))
			if mod > 0 {
				x = tb.Mod(x, big.NewInt(mod))
			}
			return tb.AddC(x, add)
		}
		bad := tb.Or(tb.Lt(r, tb.zero), tb.Gt(r, tb.Int(0x10ffff)), tb.And(tb.Ge(r, tb.Int(0xd800)), tb.Lt(r, tb.Int(0xe000))))
		b, g := ex.fork(st, bad)
		out := put(b, tb.Int(0xef), tb.Int(0xbf), tb.Int(0xbd))
		for i, lim := range []int64{0x80, 0x800, 0x10000, 0x110000} {
			if g == nil {
				break
			}
			var y *State
			y, g = ex.fork(g, tb.Lt(r, tb.Int(lim)))
			switch i {
			case 0:
				out = append(out, put(y, r)...)
			case 1:
				out = append(out, put(y, at(64, 0, 0xc0), at(1, 64, 0x80))...)
			case 2:
				out = append(out, put(y, at(4096, 0, 0xe0), at(64, 64, 0x80), at(1, 64, 0x80))...)
			default:
				out = append(out, put(y, at(262144, 0, 0xf0), at(4096, 64, 0x80), at(64, 64, 0x80), at(1, 64, 0x80))...)
			}
		}
		return out
	})
	on("Len", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, _ := buf(ex, c)
		return c.done(st, length(ex, st, key, a))
	})
	on("Reset", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, _ := buf(ex, c)
		ex.store(st, Loc{key: key, a: a}, intT, ex.tb.zero)
		return c.done(st, nil)
	})
	on("Grow", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, nil) })
	on("Bytes", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		l := length(ex, st, key, a)
		r := ex.newSlice(st, types.Typ[types.Uint8], l, l)
		st.heap.m[r.mkey] = &Node{kind: NCopy, prev: ex.node(st, r.mkey), a: r.arr, i: ex.tb.zero, n: l, sh: st.heap.m[data], skey: data, sver: st.heap.base, sa: a, soff: ex.tb.zero}
		return c.done(st, r)
	})
	on("String", func(ex *Exec, st *State, c *CallCtx) []*State {
		key, a, data := buf(ex, c)
		l := length(ex, st, key, a)
		h := st.heap.clone()
		return c.done(st, ex.newSeq("str", l, func(j *Term) *Term {
			return ex.readLeaf(h, data, types.Typ[types.Uint8], a, j).(*Term)
		}))
	})
}

// scanOnly drops the quantified assumptions that do not speak about a scan.
func scanOnly(as []*Term) []*Term {
	var has func(t *Term, f func(t *Term) bool) bool
	has = func(t *Term, f func(t *Term) bool) bool {
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if has(a, f) {
				return true
			}
		}
		return false
	}
	var out []*Term
	for _, t := range as {
		if has(t, func(t *Term) bool { return t.op == "forall" }) && !has(t, func(t *Term) bool { return strings.HasPrefix(t.name, "scan#") }) {
			continue
		}
		out = append(out, t)
	}
	return out
}
