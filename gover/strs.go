package main

// Strings are integer identities (equal identities <=> equal contents) with length and byte functions.

import (
	"fmt"
	"math/big"
	"strings"
)

type seqRec struct {
	id  *Term
	len *Term
	def func(i *Term) *Term
}

var big255 = big.NewInt(255)

func (ex *Exec) strConst(s string) *Term {
	tb := ex.tb
	if s == "" {
		return tb.zero
	}
	if t, ok := tb.strIDs[s]; ok {
		return t
	}
	t := tb.Int(int64(1 + len(tb.strIDs)))
	tb.strIDs[s] = t
	tb.strOf[t] = s
	return t
}

func (ex *Exec) strlen(s *Term) *Term {
	tb := ex.tb
	if s == tb.zero {
		return tb.zero
	}
	if c, ok := tb.strOf[s]; ok {
		return tb.Int(int64(len(c)))
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], ex.strlen(s.args[1]), ex.strlen(s.args[2]))
	}
	if r := ex.seqOf(s); r != nil {
		return r.len
	}
	n := tb.App("strlen", SInt, new(big.Int), maxSz, s)
	if !n.bvs {
		tb.AddFact(n, tb.Eq(tb.Eq(n, tb.zero), tb.Eq(s, tb.zero)))
	}
	return n
}

func (ex *Exec) seqOf(s *Term) *seqRec { return ex.seqm[s] }

func (ex *Exec) strAt(s, i *Term) *Term {
	tb := ex.tb
	if c, ok := tb.strOf[s]; ok {
		if i.isConst() && i.k.IsInt64() {
			j := i.k.Int64()
			if j >= 0 && j < int64(len(c)) {
				return tb.Int(int64(c[j]))
			}
		} else if len(c) <= 64 {
			r := tb.App("strat", SInt, new(big.Int), big255, s, i)
			for j := len(c) - 1; j >= 0; j-- {
				r = tb.Ite(tb.Eq(i, tb.Int(int64(j))), tb.Int(int64(c[j])), r)
			}
			return r
		}
	}
	if s.op == "ite" {
		return tb.Ite(s.args[0], ex.strAt(s.args[1], i), ex.strAt(s.args[2], i))
	}
	n := tb.App("strat", SInt, new(big.Int), big255, s, i)
	ex.stratFact(n)
	return n
}

func (ex *Exec) stratFact(n *Term) {
	tb := ex.tb
	if n.bvs {
		return
	}
	s, i := n.args[0], n.args[1]
	if r := ex.seqOf(s); r != nil && r.def != nil {
		tb.AddFact(n, tb.Imp(tb.And(tb.Le(tb.zero, i), tb.Lt(i, r.len)), tb.Eq(n, r.def(i))))
	}
}

// newSeq makes a string identity with the given content.
func (ex *Exec) newSeq(prefix string, ln *Term, def func(i *Term) *Term) *Term {
	tb := ex.tb
	if ln == tb.zero {
		return tb.zero
	}
	key := "" // the same bytes are the same string
	if def != nil {
		key = fmt.Sprint("$seq:", ln.id, ":", def(tb.BV("int", 98)).id)
		if id := ex.seqk[key]; id != nil {
			return id
		}
	}
	id := tb.Fresh(prefix, SInt, new(big.Int), nil)
	if key != "" {
		ex.seqk[key] = id
	}
	ex.seqm[id] = &seqRec{id: id, len: ln, def: def}
	tb.AddFact(id, tb.Eq(tb.Eq(ln, tb.zero), tb.Eq(id, tb.zero)))
	return id
}

// strEq is equality of two strings with extensionality facts attached.
func (ex *Exec) strEq(a, b *Term) *Term {
	tb := ex.tb
	e := tb.Eq(a, b)
	if e == tb.tru || e == tb.fls || e.bvs {
		return e
	}
	if _, ok := tb.strOf[a]; ok || a == tb.zero {
		a, b = b, a
	}
	if a.op == "ite" || b.op == "ite" {
		// facts for the branches
		if a.op == "ite" {
			ex.strEq(a.args[1], b)
			ex.strEq(a.args[2], b)
			return tb.Ite(a.args[0], ex.strEq(a.args[1], b), ex.strEq(a.args[2], b))
		}
		return tb.Ite(b.args[0], ex.strEq(a, b.args[1]), ex.strEq(a, b.args[2]))
	}
	if b == tb.zero {
		tb.AddFact(e, tb.Eq(e, tb.Eq(ex.strlen(a), tb.zero)))
		return e
	}
	if c, ok := tb.strOf[b]; ok && len(c) <= 64 {
		cs := []*Term{tb.Eq(ex.strlen(a), tb.Int(int64(len(c))))}
		for j := range c {
			cs = append(cs, tb.Eq(ex.strAt(a, tb.Int(int64(j))), tb.Int(int64(c[j]))))
		}
		tb.AddFact(e, tb.Eq(e, tb.And(cs...)))
		return e
	}
	d := tb.App("strdiff", SInt, nil, nil, a, b)
	la, lb := ex.strlen(a), ex.strlen(b)
	tb.AddFact(e, tb.Or(e, tb.Neq(la, lb), tb.And(tb.Le(tb.zero, d), tb.Lt(d, la), tb.Neq(ex.strAt(a, d), ex.strAt(b, d)))))
	bv := tb.BV("int", 99)
	tb.AddFact(e, tb.Imp(e, tb.And(tb.Eq(la, lb), tb.Forall("int", bv, tb.Imp(tb.And(tb.Le(tb.zero, bv), tb.Lt(bv, la)), tb.Eq(ex.strAt(a, bv), ex.strAt(b, bv)))))))
	return e
}

// onApp re-attaches facts to applications created by substitution.
func (ex *Exec) onApp(n *Term) {
	switch {
	case n.name == "strat":
		ex.stratFact(n)
	case n.name == "strlen":
		ex.tb.AddFact(n, ex.tb.Eq(ex.tb.Eq(n, ex.tb.zero), ex.tb.Eq(n.args[0], ex.tb.zero)))
	case strings.Contains(n.name, "#has@") && len(n.args) == 2:
		j := strings.LastIndex(n.name, "@")
		ex.mapHasFacts(n.name, n, n.args[0], n.args[1], n.name[j+1:], n.name[:j])
	case strings.HasSuffix(n.name, ".len") && strings.Contains(n.name, "@"):
		tb := ex.tb
		base := strings.TrimSuffix(n.name, ".len")
		cp := tb.App(base+".cap", SInt, new(big.Int), maxSz, n.args...)
		j := strings.LastIndex(base, "@")
		arr := tb.App(base+".arr", SInt, ex.verLo(base[j+1:]), nil, n.args...)
		tb.AddFact(n, tb.And(tb.Le(n, cp), tb.Imp(tb.Eq(arr, tb.zero), tb.Eq(cp, tb.zero))))
	}
}
