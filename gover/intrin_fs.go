package main

// Texts and paths: strings and path/filepath functions, and models of external functions supplied
// by contract files (vrt.Stub).

import (
	"fmt"
	"go/types"
	"math/big"
)

// strIdx is the first position where pred holds on the n bytes from there, or -1.
func (ex *Exec) strIdx(what string, s *Term, n int, pred func(i *Term) *Term) *Term {
	tb := ex.tb
	t := tb.App("str#idx:"+what, SInt, big.NewInt(-1), maxSz, s)
	if t.bvs || ex.idxDone[t] {
		return t
	}
	ex.idxDone[t] = true
	last := tb.AddC(ex.strlen(s), int64(-n)) // greatest possible position
	bv := tb.BV("int", 97)
	none := func(hi *Term) *Term {
		return tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(tb.zero, bv), tb.Lt(bv, hi)), tb.Not(pred(bv))))
	}
	m1 := tb.Int(-1)
	tb.AddFact(t, tb.And(
		tb.Le(m1, t),
		tb.Imp(tb.Neq(t, m1), tb.And(tb.Le(t, last), pred(t), none(t))),
		tb.Imp(tb.Eq(t, m1), none(tb.AddC(last, 1)))))
	return t
}

// anyOf: the byte at i is one of the set.
func (ex *Exec) anyOf(s *Term, set []byte) func(i *Term) *Term {
	return func(i *Term) *Term {
		var cs []*Term
		for _, b := range set {
			cs = append(cs, ex.tb.Eq(ex.strAt(s, i), ex.tb.Int(int64(b))))
		}
		return ex.tb.Or(cs...)
	}
}

// slashIdx is the position of the first slash.
func (ex *Exec) slashIdx(s *Term) *Term { return ex.strIdx("2f", s, 1, ex.anyOf(s, []byte("/"))) }

// plainName: s is the name of a directory entry.
func (ex *Exec) plainName(s *Term) *Term {
	tb := ex.tb
	return tb.And(tb.Eq(ex.slashIdx(s), tb.Int(-1)), tb.Neq(s, tb.zero), tb.Not(ex.strEq(s, ex.strConst("."))), tb.Not(ex.strEq(s, ex.strConst(".."))))
}

func (ex *Exec) pathClean(s *Term) *Term {
	tb := ex.tb
	if s.op == "app" && (s.name == "path#clean" || s.name == "path#join" || s.name == "path#dir") {
		return s
	}
	t := tb.App("path#clean", SInt, big.NewInt(1), nil, s)
	ex.joinedText(s)
	return t
}

// joinedText: dir + "/" + name, name being one of a directory entry, is a path of
// that entry, though perhaps not in the form filepath.Join gives.
func (ex *Exec) joinedText(s *Term) {
	tb := ex.tb
	var parts []*Term
	t := s
	for t.op == "app" && t.name == "strcat" {
		parts = append([]*Term{t.args[1]}, parts...)
		t = t.args[0]
	}
	if len(parts) < 2 || tb.strOf[parts[0]] != "/" || s.bvs || ex.textDone[s] {
		return
	}
	ex.textDone[s] = true
	name := parts[1]
	for _, x := range parts[2:] {
		name = ex.concat(name, x)
	}
	j := ex.joinTerm(t, name)
	tb.AddFact(s, tb.Imp(tb.And(ex.plainName(name), tb.Neq(t, tb.zero)), tb.And(
		tb.Eq(tb.App("path#clean", SInt, big.NewInt(1), nil, s), j),
		tb.Eq(tb.App("path#dir", SInt, big.NewInt(1), nil, s), ex.pathClean(t)),
		tb.Eq(tb.App("path#base", SInt, big.NewInt(1), nil, s), name))))
}

// joinTerm is the path of the entry of a directory.
func (ex *Exec) joinTerm(dir, name *Term) *Term {
	tb := ex.tb
	t := tb.App("path#join", SInt, big.NewInt(1), nil, ex.pathClean(dir), name)
	if !t.bvs && !ex.idxDone[t] {
		ex.idxDone[t] = true
		tb.AddFact(t, tb.Imp(ex.plainName(name), tb.And(
			tb.Eq(tb.App("path#clean", SInt, big.NewInt(1), nil, t), t),
			tb.Neq(t, ex.pathClean(dir)),
			tb.Eq(tb.App("path#dir", SInt, big.NewInt(1), nil, t), ex.pathClean(dir)),
			tb.Eq(tb.App("path#base", SInt, big.NewInt(1), nil, t), name))))
		for _, u := range ex.joins {
			tb.AddFact(t, tb.Imp(tb.And(ex.plainName(name), ex.plainName(u.args[1])),
				tb.Eq(tb.Eq(t, u), tb.And(ex.strEq(t.args[0], u.args[0]), ex.strEq(t.args[1], u.args[1])))))
		}
		ex.joins = append(ex.joins, t)
	}
	return t
}

func (ex *Exec) pathDir(s *Term) *Term {
	if s.op == "app" && s.name == "path#join" {
		// only joined with a plain name, see filepath.Join
		return ex.pathClean(s.args[0])
	}
	ex.joinedText(s)
	return ex.tb.App("path#dir", SInt, big.NewInt(1), nil, s)
}

func (ex *Exec) pathBase(s *Term) *Term {
	tb := ex.tb
	if s.op == "app" && s.name == "path#join" {
		return s.args[1]
	}
	ex.joinedText(s)
	t := tb.App("path#base", SInt, big.NewInt(1), nil, s)
	if !t.bvs && !ex.idxDone[t] {
		ex.idxDone[t] = true
		m1 := tb.Int(-1)
		tb.AddFact(t, tb.And(
			tb.Eq(ex.strEq(t, s), tb.Or(tb.And(tb.Eq(ex.slashIdx(s), m1), tb.Neq(s, tb.zero)), ex.strEq(s, ex.strConst("/")))),
			tb.Or(tb.Eq(ex.slashIdx(t), m1), ex.strEq(t, ex.strConst("/")))))
	}
	return t
}

func registerFSIntrinsics(m map[string]Intrinsic) {
	v := func(name string, h Intrinsic) { m[vrtPath+"."+name] = h }
	v("Stub", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ex.tb.tru) })
	v("UseStubs", func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ghost["$stubs"] = ex.tb.tru
		return states(st)
	})
	v("Native", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ex.tb.fls) })
	v("Unmodelled", func(ex *Exec, st *State, c *CallCtx) []*State {
		panic(unsup("a use of an external function the contract files do not model"))
	})
	// uninterpreted functions
	args := func(ex *Exec, c *CallCtx) []*Term {
		var ts []*Term
		for _, a := range c.args[1:] {
			ts = append(ts, a.(*Term))
		}
		return ts
	}
	fn := func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.App("fn:"+ex.labelOf(c.args[0]), SInt, nil, nil, args(ex, c)...))
	}
	v("Fn1", fn)
	v("Fn2", fn)
	pred := func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.tb.App("pred:"+ex.labelOf(c.args[0]), SBool, nil, nil, args(ex, c)...))
	}
	v("Pred1", pred)
	v("Pred2", pred)
	// reflect.Value as a triple of numbers: type, contents, role
	v("RV", func(ex *Exec, st *State, c *CallCtx) []*State {
		s := ex.zeroVal(c.fn.Signature.Results().At(0).Type()).(*StructV)
		p := *s.fs[0].(*PtrV)
		p.loc.a = c.args[0].(*Term)
		s.fs[0], s.fs[1], s.fs[2] = &p, c.args[1], c.args[2]
		return c.done(st, s)
	})
	for i, n := range []string{"RVTyp", "RVId", "RVRole"} {
		i := i
		v(n, func(ex *Exec, st *State, c *CallCtx) []*State {
			return c.done(st, ex.refTerm(c.args[0].(*StructV).fs[i]))
		})
	}
	v("RefOf", func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, ex.refTerm(c.args[0])) })
	v("AtRef", func(ex *Exec, st *State, c *CallCtx) []*State {
		p := *ex.zeroVal(c.fn.Signature.Results().At(0).Type()).(*PtrV)
		p.loc.a = c.args[0].(*Term)
		return c.done(st, &p)
	})
	v("ScratchDir", func(ex *Exec, st *State, c *CallCtx) []*State {
		t := ex.tb.Fresh("scratch", SInt, new(big.Int), nil)
		st.assume(ex.tb.Neq(t, ex.tb.zero))
		return c.done(st, t)
	})
	v("LimitWrites", func(ex *Exec, st *State, c *CallCtx) []*State { return states(st) })

	// ---- path/filepath (Unix) ----
	m["path/filepath.Clean"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.trust("path/filepath on Unix: Join, Clean, Dir and Base as documented")
		return c.done(st, ex.pathClean(c.args[0].(*Term)))
	}
	m["path/filepath.Dir"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.pathDir(c.args[0].(*Term)))
	}
	m["path/filepath.Base"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		return c.done(st, ex.pathBase(c.args[0].(*Term)))
	}
	m["path/filepath.Join"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		ex.trust("path/filepath on Unix: Join, Clean, Dir and Base as documented")
		s, ok := c.args[0].(*SliceV)
		if !ok || !s.len.isConst() || s.len.k.Int64() < 1 || s.len.k.Int64() > 8 {
			panic(unsup("filepath.Join of an unknown number of elements"))
		}
		strT := types.Typ[types.String]
		var es []*Term
		for i := int64(0); i < s.len.k.Int64(); i++ {
			e, ok := ex.readLeaf(st.heap, s.mkey, strT, s.arr, ex.tb.AddC(s.off, i)).(*Term)
			if !ok {
				panic(unsup("filepath.Join element"))
			}
			es = append(es, e)
		}
		return ex.joinPath(st, c, ex.pathCleanE(es[0]), es[1:])
	}
	m["path.Join"] = m["path/filepath.Join"]
	m["path.Base"] = m["path/filepath.Base"]
	m["path.Dir"] = m["path/filepath.Dir"]
	m["path.Clean"] = m["path/filepath.Clean"]

	// ---- strings ----
	lit := func(ex *Exec, t Val) (string, bool) {
		x, ok := t.(*Term)
		if !ok {
			return "", false
		}
		if x == ex.tb.zero {
			return "", true
		}
		s, ok := ex.tb.strOf[x]
		return s, ok
	}
	ascii := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] >= 0x80 {
				return false
			}
		}
		return s != ""
	}
	unknown := func(ex *Exec, st *State, c *CallCtx) []*State {
		st.ext = true
		return c.done(st, ex.freshVal(st, "x", resType(c.sig), ex.freshVer(st)))
	}
	set := func(ex *Exec, s *Term, b string) *Term {
		return ex.strIdx(fmt.Sprintf("[%x]", b), s, 1, ex.anyOf(s, []byte(b)))
	}
	one := func(ex *Exec, s *Term, b byte) *Term {
		return ex.strIdx(fmt.Sprintf("%x", []byte{b}), s, 1, ex.anyOf(s, []byte{b}))
	}
	has := func(ex *Exec, t *Term) *Term { return ex.tb.Neq(t, ex.tb.Int(-1)) }
	m["strings.IndexByte"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b := c.args[1].(*Term)
		if !b.isConst() {
			return unknown(ex, st, c)
		}
		return c.done(st, one(ex, c.args[0].(*Term), byte(b.k.Int64())))
	}
	m["strings.IndexRune"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b := c.args[1].(*Term)
		if !b.isConst() || b.k.Int64() < 0 || b.k.Int64() >= 0x80 {
			return unknown(ex, st, c)
		}
		return c.done(st, one(ex, c.args[0].(*Term), byte(b.k.Int64())))
	}
	m["strings.ContainsRune"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b := c.args[1].(*Term)
		if !b.isConst() || b.k.Int64() < 0 || b.k.Int64() >= 0x80 {
			return unknown(ex, st, c)
		}
		return c.done(st, has(ex, one(ex, c.args[0].(*Term), byte(b.k.Int64()))))
	}
	m["strings.IndexAny"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b, ok := lit(ex, c.args[1])
		if !ok || !ascii(b) {
			return unknown(ex, st, c)
		}
		return c.done(st, set(ex, c.args[0].(*Term), b))
	}
	m["strings.ContainsAny"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b, ok := lit(ex, c.args[1])
		if !ok || !ascii(b) {
			return unknown(ex, st, c)
		}
		return c.done(st, has(ex, set(ex, c.args[0].(*Term), b)))
	}
	sub := func(ex *Exec, s *Term, b string) *Term {
		if len(b) == 1 {
			return one(ex, s, b[0])
		}
		return ex.strIdx(fmt.Sprintf("%x", b), s, len(b), func(i *Term) *Term {
			var cs []*Term
			for j := range []byte(b) {
				cs = append(cs, ex.tb.Eq(ex.strAt(s, ex.tb.AddC(i, int64(j))), ex.tb.Int(int64(b[j]))))
			}
			return ex.tb.And(cs...)
		})
	}
	m["strings.Index"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b, ok := lit(ex, c.args[1])
		if !ok || b == "" || len(b) > 16 {
			return unknown(ex, st, c)
		}
		return c.done(st, sub(ex, c.args[0].(*Term), b))
	}
	m["strings.Contains"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		b, ok := lit(ex, c.args[1])
		if !ok || b == "" || len(b) > 16 {
			return unknown(ex, st, c)
		}
		return c.done(st, has(ex, sub(ex, c.args[0].(*Term), b)))
	}
	fix := func(suffix bool) Intrinsic {
		return func(ex *Exec, st *State, c *CallCtx) []*State {
			tb := ex.tb
			b, ok := lit(ex, c.args[1])
			if !ok || len(b) > 32 {
				return unknown(ex, st, c)
			}
			s := c.args[0].(*Term)
			n := ex.strlen(s)
			cs := []*Term{tb.Le(tb.Int(int64(len(b))), n)}
			for j := range []byte(b) {
				at := tb.Int(int64(j))
				if suffix {
					at = tb.AddC(n, int64(j-len(b)))
				}
				cs = append(cs, tb.Eq(ex.strAt(s, at), tb.Int(int64(b[j]))))
			}
			return c.done(st, tb.And(cs...))
		}
	}
	m["strings.HasPrefix"] = fix(false)
	m["strings.HasSuffix"] = fix(true)

	// ---- time ----
	same := func(ex *Exec, st *State, c *CallCtx) []*State { return c.done(st, c.args[0]) }
	m["(time.Time).UTC"] = same
	m["(time.Time).Local"] = same
	m["(time.Time).Round"] = func(ex *Exec, st *State, c *CallCtx) []*State {
		if n, ok := c.args[1].(*Term); ok && n == ex.tb.zero {
			return same(ex, st, c)
		}
		return unknown(ex, st, c)
	}
}

// pathCleanE: the first element of a join; an empty one is left out.
func (ex *Exec) pathCleanE(s *Term) *Term { return s }

// joinPath adds the rest of the elements; adding anything but a plain name gives an unknown path.
func (ex *Exec) joinPath(st *State, c *CallCtx, a *Term, rest []*Term) []*State {
	tb := ex.tb
	if len(rest) == 0 {
		return c.done(st, ex.pathClean(a))
	}
	p, q := ex.fork(st, ex.plainName(rest[0]))
	var out []*State
	if p != nil {
		t := ex.joinTerm(a, rest[0])
		out = append(out, ex.joinPath(p, c, t, rest[1:])...)
	}
	if q != nil {
		q.ext = true
		t := tb.Fresh("path", SInt, big.NewInt(1), nil)
		out = append(out, ex.joinPath(q, c, t, rest[1:])...)
	}
	return out
}
