package main

// Counterexamples: from a solver model to a tape that drives the harness natively.

import (
	"go/types"
	"math/big"
)

// TapeRec mirrors vrt.Rec.
type TapeRec struct {
	Kind string
	Name string
	I    string
	B    []byte
}

// modelTape asks for a model of a failed obligation and renders it as a tape.
// strict asks for many more quantifier instances, so that the model satisfies the path condition.
func (ex *Exec) modelTape(f *Fail, limit int64, timeoutMs int) ([]TapeRec, bool) {
	tb := ex.tb
	if f.as == nil {
		return nil, false
	}
	var want, lens []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && !t.isConst() && t.op != "true" && t.op != "false" && !seen[t] {
			seen[t] = true
			want = append(want, t)
		}
	}
	isLen := map[*Term]bool{}
	addLen := func(t *Term) {
		add(t)
		if !t.isConst() && !isLen[t] {
			isLen[t] = true
			lens = append(lens, t)
		}
	}
	for _, r := range f.nd {
		switch x := r.v.(type) {
		case *Term:
			if r.kind == "String" {
				addLen(ex.strlen(x))
			} else {
				add(x)
			}
		case *SliceV:
			addLen(x.len)
		case *IfaceV:
			add(x.tag)
		case *ArrayV, *StructV:
			valLeaves(r.v, add)
		}
	}
	as := append([]*Term{}, f.as...)
	if limit > 0 {
		for _, l := range lens {
			as = append(as, tb.Le(l, tb.Int(limit)))
		}
	}
	cands := copyCands(f.cands)
	if limit > 0 && limit <= 64 {
		var cs []*Term
		n := limit*int64(1+len(lens)) + 24
		if n > 90 {
			n = 90
		}
		for i := int64(0); i < n; i++ {
			cs = append(cs, tb.Int(i))
		}
		cands["int"] = append(cands["int"], cs...)
	}
	m := map[*Term]*big.Int{}
	if len(want) > 0 {
		mm, ok := tb.Model(as, cands, want, timeoutMs)
		if !ok {
			return nil, false
		}
		m = mm
	} else if r, _, _ := tb.Check(as, cands, timeoutMs, false); r != Sat {
		return nil, false
	}
	val := func(t *Term) *big.Int {
		if t.op == "true" {
			return bigOne
		}
		if t.op == "false" {
			return new(big.Int)
		}
		if t.isConst() {
			return t.k
		}
		if v, ok := m[t]; ok {
			return v
		}
		return new(big.Int)
	}
	// second step: the contents, with everything else fixed
	type cell struct {
		rec, at int
		t       *Term
	}
	var cells []cell
	var want2 []*Term
	seen2 := map[*Term]bool{}
	u8 := types.Typ[types.Uint8]
	tape := make([]TapeRec, len(f.nd))
	for i, r := range f.nd {
		tape[i] = TapeRec{Kind: r.kind, Name: r.name, I: "0"}
		var n int64
		var at func(j int64) *Term
		switch x := r.v.(type) {
		case *Term:
			if r.kind == "String" {
				n = val(ex.strlen(x)).Int64()
				at = func(j int64) *Term { return ex.strAt(x, tb.Int(j)) }
			} else {
				tape[i].I = val(x).String()
			}
		case *SliceV:
			n = val(x.len).Int64()
			at = func(j int64) *Term {
				return ex.readNode(r.node, memKey("uint8"), r.base, u8, x.arr, tb.Add(x.off, tb.Int(j))).(*Term)
			}
		case *IfaceV:
			if val(x.tag).Sign() != 0 {
				tape[i].I = "1"
			}
		case *ArrayV:
			for _, e := range x.es {
				tape[i].B = append(tape[i].B, byte(val(e.(*Term)).Int64()))
			}
		case *StructV:
			return nil, false
		}
		if at != nil {
			if n > 1<<22 {
				return nil, false
			}
			b := make([]byte, n)
			for j := int64(0); j < n; j++ {
				if j > 600 && j < n-8 {
					b[j] = 'a'
					continue
				}
				t := at(j)
				if t.isConst() {
					b[j] = byte(t.k.Int64())
					continue
				}
				cells = append(cells, cell{i, int(j), t})
				if !seen2[t] {
					seen2[t] = true
					want2 = append(want2, t)
				}
			}
			tape[i].B = b
		}
	}
	if len(want2) > 0 {
		max := int64(0)
		for _, l := range lens {
			if v := val(l); v.IsInt64() && v.Int64() > max {
				max = v.Int64()
			}
		}
		if max > 20 && max <= 900 {
			tb.maxInst = 40000
			defer func() { tb.maxInst = 4000 }()
			cands = copyCands(cands)
			for i := int64(0); i < max+24; i++ {
				cands["int"] = append(cands["int"], tb.Int(i))
			}
		}
		for _, t := range want {
			v := val(t)
			if t.sort == SBool {
				if v.Sign() != 0 {
					as = append(as, t)
				} else {
					as = append(as, tb.Not(t))
				}
			} else {
				as = append(as, tb.Eq(t, tb.Big(v)))
			}
		}
		m2, ok := tb.Model(as, cands, want2, timeoutMs)
		if !ok {
			return nil, false
		}
		for _, c := range cells {
			if v, ok := m2[c.t]; ok {
				tape[c.rec].B[c.at] = byte(v.Int64())
			}
		}
	}
	return tape, true
}
