package main

// Hash-consed SMT terms over Int and Bool with eager simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
)

type Term struct {
	id   int
	op   string // const, var(app0), app, lin, div, mod, ite, eq, le, not, and, or, forall, true, false, bv, mul
	args []*Term
	sort Sort
	k    *big.Int   // const value / lin constant
	cs   []*big.Int // lin coefficients (args = atoms)
	name string
	lo   *big.Int // interval (nil: unbounded)
	hi   *big.Int
	bvs  bool // contains bound variables
}

func (t *Term) isConst() bool { return t.op == "const" }

type interner struct {
	sync.Mutex
	m     map[string]*Term
	next  int
	facts map[*Term][]*Term
	fresh int
}

// TB is a per-harness term bank (no sharing between goroutines).
type TB struct {
	m       map[string]*Term
	next    int
	facts   map[*Term][]*Term
	nfresh  map[string]int
	tru     *Term
	fls     *Term
	zero    *Term
	one     *Term
	subMemo map[string]*Term
	strIDs  map[string]*Term
	strOf   map[*Term]string
	maxInst int
	skolems map[*Term]*Term
	onApp   func(n *Term) // re-creates facts attached to applications when substituted
	hasPair func(a, o *Term) *Term
}

func NewTB() *TB {
	b := &TB{maxInst: 4000, m: map[string]*Term{}, facts: map[*Term][]*Term{}, nfresh: map[string]int{}, subMemo: map[string]*Term{}, strIDs: map[string]*Term{}, strOf: map[*Term]string{}, skolems: map[*Term]*Term{}}
	b.tru = b.mk(&Term{op: "true", sort: SBool})
	b.fls = b.mk(&Term{op: "false", sort: SBool})
	b.zero = b.Int(0)
	b.one = b.Int(1)
	return b
}

func (b *TB) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.cs != nil {
			sb.WriteString(t.cs[i].String())
			sb.WriteByte('*')
		}
		fmt.Fprintf(&sb, "%d", a.id)
	}
	if t.sort == SBool {
		sb.WriteByte('B')
	}
	key := sb.String()
	if o, ok := b.m[key]; ok {
		return o
	}
	b.next++
	t.id = b.next
	if t.op == "bv" {
		t.bvs = true
	}
	for _, a := range t.args {
		if a.bvs {
			t.bvs = true
		}
	}
	b.m[key] = t
	return t
}

func (b *TB) Int(v int64) *Term { return b.Big(big.NewInt(v)) }
func (b *TB) Big(v *big.Int) *Term {
	return b.mk(&Term{op: "const", sort: SInt, k: v, lo: v, hi: v})
}
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.tru
	}
	return b.fls
}

// Var declares (or returns) a named constant.
func (b *TB) Var(name string, s Sort, lo, hi *big.Int) *Term {
	return b.mk(&Term{op: "app", name: name, sort: s, lo: lo, hi: hi})
}
func (b *TB) Fresh(prefix string, s Sort, lo, hi *big.Int) *Term {
	b.nfresh[prefix]++
	return b.Var(fmt.Sprintf("%s!%d", prefix, b.nfresh[prefix]), s, lo, hi)
}
func (b *TB) App(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	return b.mk(&Term{op: "app", name: name, sort: s, args: args, lo: lo, hi: hi})
}

func (b *TB) AddFact(t *Term, f *Term) {
	if f == b.tru {
		return
	}
	for _, o := range b.facts[t] {
		if o == f {
			return
		}
	}
	b.facts[t] = append(b.facts[t], f)
}

var bigOne = big.NewInt(1)

func badd(a, c *big.Int) *big.Int {
	if a == nil || c == nil {
		return nil
	}
	return new(big.Int).Add(a, c)
}
func bmul(a, c *big.Int) *big.Int {
	if a == nil || c == nil {
		return nil
	}
	return new(big.Int).Mul(a, c)
}

// linear view
func (b *TB) linParts(t *Term) (k *big.Int, atoms []*Term, cs []*big.Int) {
	switch t.op {
	case "const":
		return t.k, nil, nil
	case "lin":
		return t.k, t.args, t.cs
	}
	return new(big.Int), []*Term{t}, []*big.Int{bigOne}
}

func (b *TB) mkLin(k *big.Int, m map[*Term]*big.Int) *Term {
	var atoms []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return b.Big(k)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && k.Sign() == 0 && m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	cs := make([]*big.Int, len(atoms))
	lo, hi := k, k
	for i, a := range atoms {
		c := m[a]
		cs[i] = c
		if c.Sign() > 0 {
			lo = badd(lo, bmul(c, a.lo))
			hi = badd(hi, bmul(c, a.hi))
		} else {
			lo = badd(lo, bmul(c, a.hi))
			hi = badd(hi, bmul(c, a.lo))
		}
	}
	return b.mk(&Term{op: "lin", sort: SInt, k: k, args: atoms, cs: cs, lo: lo, hi: hi})
}

func (b *TB) lincomb(x *Term, cx *big.Int, y *Term, cy *big.Int) *Term {
	m := map[*Term]*big.Int{}
	k := new(big.Int)
	add := func(t *Term, c *big.Int) {
		tk, at, cs := b.linParts(t)
		k = new(big.Int).Add(k, new(big.Int).Mul(tk, c))
		for i, a := range at {
			v := new(big.Int).Mul(cs[i], c)
			if o, ok := m[a]; ok {
				v.Add(v, o)
			}
			m[a] = v
		}
	}
	add(x, cx)
	if y != nil {
		add(y, cy)
	}
	return b.mkLin(k, m)
}

var bigM1 = big.NewInt(-1)

func (b *TB) Add(x, y *Term) *Term { return b.lincomb(x, bigOne, y, bigOne) }
func (b *TB) Sub(x, y *Term) *Term { return b.lincomb(x, bigOne, y, bigM1) }
func (b *TB) AddC(x *Term, c int64) *Term {
	return b.Add(x, b.Int(c))
}
func (b *TB) Neg(x *Term) *Term { return b.lincomb(x, bigM1, nil, nil) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.isConst() {
		return b.lincomb(y, x.k, nil, nil)
	}
	if y.isConst() {
		return b.lincomb(x, y.k, nil, nil)
	}
	if x.id > y.id {
		x, y = y, x
	}
	var lo, hi *big.Int
	if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
		lo = bmul(x.lo, y.lo)
		hi = bmul(x.hi, y.hi)
	}
	return b.mk(&Term{op: "mul", sort: SInt, args: []*Term{x, y}, lo: lo, hi: hi})
}

// Div and Mod: Euclidean with positive constant divisor.
func (b *TB) Div(x *Term, m *big.Int) *Term {
	if m.Cmp(bigOne) == 0 {
		return x
	}
	if x.isConst() {
		q, r := new(big.Int).DivMod(x.k, m, new(big.Int))
		_ = r
		return b.Big(q)
	}
	if x.lo != nil && x.hi != nil {
		ql := new(big.Int).Div(x.lo, m)
		qh := new(big.Int).Div(x.hi, m)
		if ql.Cmp(qh) == 0 {
			return b.Big(ql)
		}
	}
	if x.op == "lin" {
		// split off multiples of m: (m*A + r) div m = A + r div m
		hm := map[*Term]*big.Int{}
		rm := map[*Term]*big.Int{}
		hk, rk := new(big.Int).DivMod(x.k, m, new(big.Int))
		for i, a := range x.args {
			q, r := new(big.Int).DivMod(x.cs[i], m, new(big.Int))
			if r.Sign() == 0 {
				hm[a] = q
			} else {
				rm[a] = x.cs[i]
			}
		}
		if len(hm) > 0 || hk.Sign() != 0 {
			rest := b.mkLin(rk, rm)
			return b.Add(b.mkLin(hk, hm), b.Div(rest, m))
		}
	}
	if x.op == "div" {
		return b.Div(x.args[0], new(big.Int).Mul(x.k, m))
	}
	var lo, hi *big.Int
	if x.lo != nil {
		lo = new(big.Int).Div(x.lo, m)
	}
	if x.hi != nil {
		hi = new(big.Int).Div(x.hi, m)
	}
	return b.mk(&Term{op: "div", sort: SInt, args: []*Term{x}, k: m, lo: lo, hi: hi})
}
func (b *TB) Mod(x *Term, m *big.Int) *Term {
	// x mod m = x - m*(x div m)
	d := b.Div(x, m)
	if d.op == "div" && (d.args[0] == x && d.k.Cmp(m) == 0 || x.op == "div" && d.args[0] == x.args[0]) {
		hi := new(big.Int).Sub(m, bigOne)
		t := b.mk(&Term{op: "mod", sort: SInt, args: []*Term{x}, k: m, lo: new(big.Int), hi: hi})
		if _, ok := pow2Exp(m); ok && !t.bvs && len(b.facts[t]) == 0 {
			// digit chain: x = m*(x div m) + x mod m
			b.facts[t] = append(b.facts[t], b.Eq(x, b.lincomb(t, bigOne, d, m)))
		}
		return t
	}
	r := b.lincomb(x, bigOne, d, new(big.Int).Neg(m))
	if r.op == "lin" && (r.lo == nil || r.lo.Sign() < 0 || r.hi == nil || r.hi.Cmp(m) >= 0) {
		// reduce to mod of the remaining part
		var rest *Term
		if x.op == "lin" {
			rm := map[*Term]*big.Int{}
			rk := new(big.Int).Mod(x.k, m)
			for i, a := range x.args {
				if new(big.Int).Mod(x.cs[i], m).Sign() != 0 {
					rm[a] = new(big.Int).Mod(x.cs[i], m)
				}
			}
			rest = b.mkLin(rk, rm)
			if rest.lo != nil && rest.lo.Sign() >= 0 && rest.hi != nil && rest.hi.Cmp(m) < 0 {
				return rest
			}
		}
		if rest == nil {
			rest = x
		}
		hi := new(big.Int).Sub(m, bigOne)
		return b.mk(&Term{op: "mod", sort: SInt, args: []*Term{rest}, k: m, lo: new(big.Int), hi: hi})
	}
	return r
}

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case "true":
		return b.fls
	case "false":
		return b.tru
	case "not":
		return x.args[0]
	case "le": // not (l <= 0)  ==  1 - l <= 0
		return b.le0(b.lincomb(b.one, bigOne, x.args[0], bigM1))
	}
	return b.mk(&Term{op: "not", sort: SBool, args: []*Term{x}})
}

func (b *TB) And(xs ...*Term) *Term { return b.nary("and", b.tru, b.fls, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.nary("or", b.fls, b.tru, xs) }
func (b *TB) nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[b.notNoSimp(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.mk(&Term{op: op, sort: SBool, args: out})
}
func (b *TB) notNoSimp(x *Term) *Term { return b.Not(x) }
func (b *TB) Imp(x, y *Term) *Term    { return b.Or(b.Not(x), y) }
func (b *TB) Iff(x, y *Term) *Term    { return b.Eq(x, y) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.tru {
		return x
	}
	if c == b.fls {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == SBool {
		if x == b.tru && y == b.fls {
			return c
		}
		if x == b.fls && y == b.tru {
			return b.Not(c)
		}
		if x == b.tru {
			return b.Or(c, y)
		}
		if x == b.fls {
			return b.And(b.Not(c), y)
		}
		if y == b.tru {
			return b.Or(b.Not(c), x)
		}
		if y == b.fls {
			return b.And(c, x)
		}
	}
	if c.op == "not" {
		return b.Ite(c.args[0], y, x)
	}
	var lo, hi *big.Int
	if x.sort == SInt {
		if x.lo != nil && y.lo != nil {
			lo = x.lo
			if y.lo.Cmp(lo) < 0 {
				lo = y.lo
			}
		}
		if x.hi != nil && y.hi != nil {
			hi = x.hi
			if y.hi.Cmp(hi) > 0 {
				hi = y.hi
			}
		}
	}
	return b.mk(&Term{op: "ite", sort: x.sort, args: []*Term{c, x, y}, lo: lo, hi: hi})
}

func (b *TB) le0(l *Term) *Term { // l <= 0
	if l.hi != nil && l.hi.Sign() <= 0 {
		return b.tru
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return b.fls
	}
	return b.mk(&Term{op: "le", sort: SBool, args: []*Term{l}})
}
func (b *TB) Le(x, y *Term) *Term { return b.le0(b.Sub(x, y)) }
func (b *TB) Lt(x, y *Term) *Term { return b.le0(b.AddC(b.Sub(x, y), 1)) }
func (b *TB) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TB) Gt(x, y *Term) *Term { return b.Lt(y, x) }

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.tru
	}
	if x.sort == SBool {
		if x == b.tru {
			return y
		}
		if y == b.tru {
			return x
		}
		if x == b.fls {
			return b.Not(y)
		}
		if y == b.fls {
			return b.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.mk(&Term{op: "eq", sort: SBool, args: []*Term{x, y}})
	}
	d := b.Sub(x, y)
	if d.isConst() {
		return b.Bool(d.k.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return b.fls
	}
	// ite with constant branches against constant
	if y.isConst() && x.op == "ite" && (x.args[1].isConst() || x.args[2].isConst()) {
		return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
	}
	if x.isConst() && y.op == "ite" && (y.args[1].isConst() || y.args[2].isConst()) {
		return b.Ite(y.args[0], b.Eq(y.args[1], x), b.Eq(y.args[2], x))
	}
	// canonical: smaller id first
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: "eq", sort: SBool, args: []*Term{x, y}})
}
func (b *TB) Neq(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

// ---- quantifiers ----

func (b *TB) BV(kind string, depth int) *Term {
	return b.mk(&Term{op: "bv", name: fmt.Sprintf("%s!%d", kind, depth), sort: SInt})
}

// Forall binds bv in body.
func (b *TB) Forall(kind string, bv, body *Term) *Term {
	if body == b.tru {
		return b.tru
	}
	if !b.occurs(bv, body) {
		return body // domains are non-empty
	}
	t := b.mk(&Term{op: "forall", name: kind, sort: SBool, args: []*Term{bv, body}})
	// closed if no other bound variable occurs
	t.bvs = b.hasOtherBV(body, bv, map[*Term]bool{})
	return t
}
func (b *TB) occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] || (!t.bvs && x.bvs) {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
func (b *TB) hasOtherBV(t, bv *Term, seen map[*Term]bool) bool {
	if !t.bvs || seen[t] || t == bv {
		return false
	}
	seen[t] = true
	if t.op == "bv" {
		return true
	}
	if t.op == "forall" {
		seen[t.args[0]] = true // bound here; variables are named by depth, so it occurs nowhere else
		return b.hasOtherBV(t.args[1], bv, seen)
	}
	for _, a := range t.args {
		if b.hasOtherBV(a, bv, seen) {
			return true
		}
	}
	return false
}

// Subst replaces x by y in t.
func (b *TB) Subst(t, x, y *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t == x {
			return y
		}
		if x.bvs && !t.bvs {
			return t
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (b *TB) rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "app":
		n := b.App(t.name, t.sort, t.lo, t.hi, na...)
		if b.onApp != nil && !n.bvs {
			b.onApp(n)
		}
		return n
	case "lin":
		r := b.Big(t.k)
		for i, a := range na {
			r = b.lincomb(r, bigOne, a, t.cs[i])
		}
		return r
	case "mul":
		return b.Mul(na[0], na[1])
	case "div":
		return b.Div(na[0], t.k)
	case "mod":
		return b.Mod(na[0], t.k)
	case "ite":
		return b.Ite(na[0], na[1], na[2])
	case "eq":
		return b.Eq(na[0], na[1])
	case "le":
		return b.le0(na[0])
	case "not":
		return b.Not(na[0])
	case "and":
		return b.And(na...)
	case "or":
		return b.Or(na...)
	case "forall":
		return b.Forall(t.name, na[0], na[1])
	}
	panic("rebuild " + t.op)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	if d > 12 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case "const":
		sb.WriteString(t.k.String())
	case "true", "false":
		sb.WriteString(t.op)
	case "bv":
		sb.WriteString("?" + t.name)
	case "lin":
		sb.WriteByte('(')
		first := true
		for i, a := range t.args {
			if !first {
				sb.WriteString(" + ")
			}
			first = false
			if t.cs[i].Cmp(bigOne) != 0 {
				sb.WriteString(t.cs[i].String() + "*")
			}
			a.str(sb, d+1)
		}
		if t.k.Sign() != 0 {
			sb.WriteString(" + " + t.k.String())
		}
		sb.WriteByte(')')
	case "le":
		t.args[0].str(sb, d+1)
		sb.WriteString(" <= 0")
	default:
		n := t.op
		if t.op == "app" {
			n = t.name
		}
		if len(t.args) == 0 {
			sb.WriteString(n)
			return
		}
		sb.WriteString(n + "(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.str(sb, d+1)
		}
		if t.op == "div" || t.op == "mod" {
			sb.WriteString(", " + t.k.String())
		}
		sb.WriteByte(')')
	}
}
