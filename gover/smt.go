package main

// SMT-LIB back end: persistent solver processes, one self-contained query at a time.

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Solver struct {
	name string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	dead bool
	uses int
}

func solverArgs(name string) (string, []string) {
	switch name {
	case "z3-new", "z3":
		return name, []string{"-in", "-smt2"}
	case "cvc5":
		return "cvc5", []string{"--lang=smt2", "--incremental", "--produce-models", "-q"}
	}
	panic(name)
}

func startSolver(name string) (*Solver, error) {
	bin, args := solverArgs(name)
	c := exec.Command(bin, args...)
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &Solver{name: name, cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) kill() {
	if s.dead {
		return
	}
	s.dead = true
	s.cmd.Process.Kill()
	s.in.Close()
	go s.cmd.Wait()
}

// roundTrip sends text and reads the answer up to the echo marker.
func (s *Solver) roundTrip(text string, timeout time.Duration) (string, bool) {
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(s.in, text+"\n(echo \"@@done\")\n"); err != nil {
			ch <- res{"", false}
			return
		}
		var sb strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), false}
				return
			}
			if strings.Contains(line, "@@done") {
				ch <- res{sb.String(), true}
				return
			}
			sb.WriteString(line)
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.ok
	case <-time.After(timeout):
		s.kill()
		return "", false
	}
}

// ---- pool & cache & stats ----

type SMTStats struct {
	sync.Mutex
	Queries   map[string]int
	Time      map[string]time.Duration
	CacheHits int
	Cross     int
	Disagree  []string
	Errors    int
}

var smtStats = &SMTStats{Queries: map[string]int{}, Time: map[string]time.Duration{}}

var queryCache sync.Map // sha -> Result

type pool struct {
	sync.Mutex
	free map[string][]*Solver
}

var solverPool = &pool{free: map[string][]*Solver{}}

func (p *pool) get(name string) (*Solver, error) {
	p.Lock()
	l := p.free[name]
	if len(l) > 0 {
		s := l[len(l)-1]
		p.free[name] = l[:len(l)-1]
		p.Unlock()
		return s, nil
	}
	p.Unlock()
	return startSolver(name)
}
func (p *pool) put(s *Solver) {
	if s.dead {
		return
	}
	p.Lock()
	p.free[s.name] = append(p.free[s.name], s)
	p.Unlock()
}
func (p *pool) closeAll() {
	p.Lock()
	defer p.Unlock()
	for _, l := range p.free {
		for _, s := range l {
			s.kill()
		}
	}
}

// ---- query construction ----

type Query struct {
	text  string
	decls []*Term // app terms occurring (for models)
}

func smtName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '@') {
			ok = false
			break
		}
	}
	if ok && n != "" {
		return "v_" + n
	}
	n = strings.NewReplacer("|", "/", "\\", "/").Replace(n)
	return "|" + n + "|"
}

func smtConst(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// BuildQuery renders the conjunction of as. Quantified sub-formulas become atoms with
// instantiation and Skolem lemmas (see DESIGN.md).
func (b *TB) BuildQuery(as []*Term, cands map[string][]*Term) *Query {
	// closure over facts and quantifier lemmas; a quantified sub-formula gets instances where it
	// occurs positively and a Skolem witness where it occurs negatively
	const pos, neg = 1, 2
	flip := [4]int{0, 2, 1, 3}
	var list []*Term
	inList := map[*Term]bool{}
	seen := map[*Term]int{}
	polOf := map[*Term]int{}
	var foralls []*Term
	type job struct {
		t   *Term
		pol int
	}
	var queue []job
	lemma := func(t, part *Term, pol int) {
		if t == b.tru || inList[t] {
			return
		}
		inList[t] = true
		list = append(list, t)
		queue = append(queue, job{part, pol})
	}
	push := func(t *Term) { lemma(t, t, pos) }
	type hasApps struct {
		ts   []*Term
		done int
	}
	has := map[string]*hasApps{}
	seenApps := map[string][]*Term{} // keys of map iterations
	var hasNames []string
	var visit func(t *Term, pol int)
	visit = func(t *Term, pol int) {
		old := seen[t]
		if old|pol == old {
			return
		}
		seen[t] = old | pol
		if t.op == "forall" {
			if !t.bvs {
				if polOf[t] == 0 {
					foralls = append(foralls, t)
				}
				polOf[t] |= pol
			}
			return
		}
		switch {
		case t.op == "and" || t.op == "or":
			for _, a := range t.args {
				visit(a, pol)
			}
		case t.op == "not":
			visit(t.args[0], flip[pol])
		case t.op == "ite":
			visit(t.args[0], pos|neg)
			visit(t.args[1], pol)
			visit(t.args[2], pol)
		default:
			for _, a := range t.args {
				visit(a, pos|neg)
			}
		}
		if t.bvs || old != 0 {
			return
		}
		if t.op == "app" && t.sort == SInt {
			if t.lo != nil {
				push(b.mk(&Term{op: "rawge", sort: SBool, args: []*Term{t}, k: t.lo}))
			}
			if t.hi != nil {
				push(b.mk(&Term{op: "rawle", sort: SBool, args: []*Term{t}, k: t.hi}))
			}
		}
		if t.op == "app" && t.sort == SBool && len(t.args) == 2 && strings.Contains(t.name, "#has@") {
			h := has[t.name]
			if h == nil {
				h = &hasApps{}
				has[t.name] = h
				hasNames = append(hasNames, t.name)
			}
			h.ts = append(h.ts, t)
		}
		if t.op == "app" && len(t.args) == 2 && strings.HasPrefix(t.name, "iter#seen@") {
			seenApps[t.name] = append(seenApps[t.name], t.args[1])
		}
		for _, f := range b.facts[t] {
			push(f)
		}
	}
	for _, a := range as {
		push(a)
	}
	done := map[*Term]map[*Term]bool{}
	nPairs := 0
	drain := func() {
		for {
			for len(queue) > 0 {
				j := queue[0]
				queue = queue[1:]
				visit(j.t, j.pol)
			}
			// two different keys: at least two entries
			for _, n := range hasNames {
				h := has[n]
				for ; h.done < len(h.ts) && nPairs < 3000; h.done++ {
					for i := 0; i < h.done; i++ {
						if f := b.hasPair(h.ts[i], h.ts[h.done]); f != b.tru {
							push(f)
							nPairs++
						}
					}
				}
			}
			if len(queue) == 0 {
				return
			}
		}
	}
	drain()
	nInst := 0
	skDone := map[*Term]bool{}
	for round := 0; round < 4; round++ {
		nf := len(foralls)
		added := false
		for i := 0; i < len(foralls); i++ {
			f := foralls[i]
			if done[f] == nil {
				done[f] = map[*Term]bool{}
			}
			if polOf[f]&neg != 0 && !skDone[f] {
				skDone[f] = true
				body := b.Subst(f.args[1], f.args[0], b.Skolem(f))
				lemma(b.Or(f, b.Not(body)), body, neg)
				added = true
			}
		}
		cl := map[string][]*Term{}
		for k, v := range cands {
			cl[k] = append(cl[k], v...)
		}
		for _, f := range foralls {
			if skDone[f] {
				cl[f.name] = append(cl[f.name], b.Skolem(f))
			}
		}
		for i := 0; i < nf; i++ {
			f := foralls[i]
			if polOf[f]&pos == 0 {
				continue
			}
			cs := cl[f.name]
			if len(seenApps) > 0 && strings.HasPrefix(f.name, "key:") {
				if n := seenTrigger(f.args[1], f.args[0]); n != "" {
					cs = append(append([]*Term{}, cs...), seenApps[n]...)
				}
			}
			for _, c := range cs {
				if done[f][c] || nInst > b.maxInst {
					continue
				}
				done[f][c] = true
				nInst++
				body := b.Subst(f.args[1], f.args[0], c)
				lemma(b.Or(b.Not(f), body), body, pos)
				added = true
			}
		}
		drain()
		if !added {
			break
		}
	}
	// emit
	refs := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 || t.op == "forall" {
			return
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, t := range list {
		count(t)
	}
	var out bytes.Buffer
	declared := map[string]bool{}
	named := map[*Term]string{}
	var decls []*Term
	nm := 0
	var emit func(t *Term) string
	render := func(t *Term) string {
		switch t.op {
		case "const":
			return smtConst(t.k)
		case "true", "false":
			return t.op
		case "app":
			name := smtName(t.name)
			if !declared[name] {
				declared[name] = true
				out.WriteString("(declare-fun " + name + " (")
				for i, a := range t.args {
					if i > 0 {
						out.WriteByte(' ')
					}
					out.WriteString(sortName(a.sort))
				}
				out.WriteString(") " + sortName(t.sort) + ")\n")
			}
			decls = append(decls, t)
			if len(t.args) == 0 {
				return name
			}
			parts := []string{name}
			for _, a := range t.args {
				parts = append(parts, emit(a))
			}
			return "(" + strings.Join(parts, " ") + ")"
		case "forall":
			name := fmt.Sprintf("q!%d", t.id)
			if !declared[name] {
				declared[name] = true
				out.WriteString("(declare-fun " + name + " () Bool)\n")
			}
			return name
		case "lin":
			var parts []string
			for i, a := range t.args {
				s := emit(a)
				if t.cs[i].Cmp(bigOne) == 0 {
					parts = append(parts, s)
				} else {
					parts = append(parts, "(* "+smtConst(t.cs[i])+" "+s+")")
				}
			}
			if t.k.Sign() != 0 {
				parts = append(parts, smtConst(t.k))
			}
			if len(parts) == 1 {
				return parts[0]
			}
			return "(+ " + strings.Join(parts, " ") + ")"
		case "mul":
			return "(* " + emit(t.args[0]) + " " + emit(t.args[1]) + ")"
		case "div":
			return "(div " + emit(t.args[0]) + " " + smtConst(t.k) + ")"
		case "mod":
			return "(mod " + emit(t.args[0]) + " " + smtConst(t.k) + ")"
		case "le":
			return "(<= " + emit(t.args[0]) + " 0)"
		case "rawge":
			return "(>= " + emit(t.args[0]) + " " + smtConst(t.k) + ")"
		case "rawle":
			return "(<= " + emit(t.args[0]) + " " + smtConst(t.k) + ")"
		case "eq":
			return "(= " + emit(t.args[0]) + " " + emit(t.args[1]) + ")"
		case "not", "and", "or", "ite":
			parts := []string{t.op}
			for _, a := range t.args {
				parts = append(parts, emit(a))
			}
			return "(" + strings.Join(parts, " ") + ")"
		}
		panic("smt render " + t.op)
	}
	emit = func(t *Term) string {
		if n, ok := named[t]; ok {
			return n
		}
		s := render(t)
		if refs[t] > 1 && len(t.args) > 0 && t.op != "forall" {
			nm++
			n := fmt.Sprintf("t!%d", nm)
			out.WriteString("(define-fun " + n + " () " + sortName(t.sort) + " " + s + ")\n")
			named[t] = n
			return n
		}
		return s
	}
	for _, t := range list {
		s := emit(t)
		out.WriteString("(assert " + s + ")\n")
	}
	// unique decls
	sort.Slice(decls, func(i, j int) bool { return decls[i].id < decls[j].id })
	var ud []*Term
	for i, d := range decls {
		if i == 0 || decls[i-1] != d {
			ud = append(ud, d)
		}
	}
	return &Query{text: out.String(), decls: ud}
}

func (b *TB) Skolem(f *Term) *Term {
	if s, ok := b.skolems[f]; ok {
		return s
	}
	s := b.Var(fmt.Sprintf("sk_%s!%d", f.name, f.id), SInt, nil, nil)
	b.skolems[f] = s
	return s
}

func sortName(s Sort) string {
	if s == SBool {
		return "Bool"
	}
	return "Int"
}

var solverOrder = []string{"z3-new", "cvc5", "z3"}

// Check decides satisfiability of the conjunction.
func (b *TB) Check(as []*Term, cands map[string][]*Term, timeoutMs int, fallback bool) (Result, *Query, string) {
	for _, a := range as {
		if a == b.fls {
			return Unsat, nil, "simplifier"
		}
	}
	q := b.BuildQuery(as, cands)
	r, back := q.decide(timeoutMs, fallback)
	return r, q, back
}

func (q *Query) decide(timeoutMs int, fallback bool) (Result, string) {
	key := sha256.Sum256([]byte(q.text))
	if r, ok := queryCache.Load(key); ok {
		smtStats.Lock()
		smtStats.CacheHits++
		smtStats.Unlock()
		return r.(Result), "cache"
	}
	names := solverOrder[:1]
	if fallback {
		names = solverOrder
	}
	for _, n := range names {
		r := runQuery(n, q.text, timeoutMs)
		if r != Unknown {
			queryCache.Store(key, r)
			return r, n
		}
	}
	return Unknown, "none"
}

func runQuery(name, text string, timeoutMs int) Result {
	if name == "z3-new" { // cheap incremental scope first, then a fresh context
		ms := timeoutMs
		if ms > 1500 {
			ms = 1500
		}
		if r := runQueryMode(name, text, ms, true); r != Unknown || timeoutMs < 500 {
			return r
		}
	}
	return runQueryMode(name, text, timeoutMs, false)
}

func runQueryMode(name, text string, timeoutMs int, scoped bool) Result {
	s, err := solverPool.get(name)
	if err != nil {
		return Unknown
	}
	t0 := time.Now()
	var pre string
	if name == "cvc5" {
		pre = fmt.Sprintf("(reset)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", timeoutMs)
	} else {
		pre = fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", timeoutMs)
	}
	post := "(check-sat)"
	if scoped {
		pre = fmt.Sprintf("(push 1)\n(set-option :timeout %d)\n", timeoutMs)
		if s.uses > 400 {
			pre = "(reset)\n" + pre
			s.uses = 0
		}
		s.uses++
		post = "(check-sat)\n(pop 1)"
	} else {
		s.uses = 0
		if name != "cvc5" {
			post = "(check-sat)\n(reset)"
		}
	}
	ans, ok := s.roundTrip(pre+text+post, time.Duration(timeoutMs+3000)*time.Millisecond)
	smtStats.Lock()
	smtStats.Queries[name]++
	smtStats.Time[name] += time.Since(t0)
	smtStats.Unlock()
	if os.Getenv("GOVER_SLOW") != "" && time.Since(t0) > 1200*time.Millisecond {
		f, _ := os.CreateTemp("/tmp", "slow*.smt2")
		f.WriteString(text + "(check-sat)\n")
		f.Close()
		fmt.Fprintf(os.Stderr, "slow query %v %s %s\n", time.Since(t0), name, f.Name())
	}
	if strings.Contains(ans, "(error") {
		ok = false
	}
	if ok {
		solverPool.put(s)
	} else {
		s.kill()
	}
	if strings.Contains(ans, "(error") {
		smtStats.Lock()
		smtStats.Errors++
		smtStats.Unlock()
	}
	if strings.Contains(ans, "(error") && os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SMT error:", name, ans)
		os.WriteFile("/tmp/gover_err.smt2", []byte(text), 0644)
	}
	if strings.Contains(ans, "(error") {
		return Unknown
	}
	for _, l := range strings.Split(ans, "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

// Model evaluates the given terms in a model of the query (z3-new).
func (b *TB) Model(as []*Term, cands map[string][]*Term, want []*Term, timeoutMs int) (map[*Term]*big.Int, bool) {
	all := append([]*Term{}, as...)
	q := b.BuildQueryWant(all, cands, want)
	s, err := solverPool.get("z3-new")
	if err != nil {
		return nil, false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(get-value (", timeoutMs, q)
	for i := range want {
		fmt.Fprintf(&sb, " v_want!%d", i)
	}
	sb.WriteString("))")
	ans, ok := s.roundTrip(sb.String(), time.Duration(timeoutMs+3000)*time.Millisecond)
	s.kill() // a fresh process per model; nothing may stay behind in a pooled one
	if !ok {
		return nil, false
	}
	if !strings.HasPrefix(strings.TrimSpace(ans), "sat") {
		return nil, false
	}
	res := map[*Term]*big.Int{}
	rest := ans[strings.Index(ans, "sat")+3:]
	for i, w := range want {
		tag := fmt.Sprintf("v_want!%d ", i)
		p := strings.Index(rest, "("+tag)
		if p < 0 {
			continue
		}
		v := rest[p+1+len(tag):]
		depth := 0
		end := 0
		for end = 0; end < len(v); end++ {
			if v[end] == '(' {
				depth++
			}
			if v[end] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
		}
		v = strings.TrimSpace(v[:end])
		switch {
		case v == "true":
			res[w] = big.NewInt(1)
		case v == "false":
			res[w] = big.NewInt(0)
		default:
			neg := false
			if strings.HasPrefix(v, "(-") {
				neg = true
				v = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(v, "(-"), ")"))
			}
			n, ok := new(big.Int).SetString(v, 10)
			if ok {
				if neg {
					n.Neg(n)
				}
				res[w] = n
			}
		}
	}
	return res, true
}

// seenTrigger is the iteration (iter#seen) whose keys the quantifier speaks about.
func seenTrigger(t, bv *Term) string {
	if !t.bvs {
		return ""
	}
	if t.op == "app" && len(t.args) == 2 && t.args[1] == bv && strings.HasPrefix(t.name, "iter#seen@") {
		return t.name
	}
	for _, a := range t.args {
		if n := seenTrigger(a, bv); n != "" {
			return n
		}
	}
	return ""
}

func (b *TB) BuildQueryWant(as []*Term, cands map[string][]*Term, want []*Term) string {
	var extra []*Term
	for i, w := range want {
		v := b.Var(fmt.Sprintf("want!%d", i), w.sort, nil, nil)
		extra = append(extra, b.mk(&Term{op: "eq", sort: SBool, args: []*Term{v, w}}))
	}
	q := b.BuildQuery(append(append([]*Term{}, as...), extra...), cands)
	return q.text
}

var asyncSem = make(chan bool, 10)

// later decides the query in the background and reports the outcome under the unit's lock.
func (ex *Exec) later(as []*Term, cands map[string][]*Term, done func(r Result, q *Query, back string, d time.Duration)) {
	for _, a := range as {
		if a == ex.tb.fls {
			ex.omu.Lock()
			done(Unsat, nil, "simplifier", 0)
			ex.omu.Unlock()
			return
		}
	}
	q := ex.tb.BuildQuery(as, cands)
	ms := ex.opts.timeoutMs
	asyncSem <- true
	ex.owg.Add(1)
	go func() {
		defer func() { <-asyncSem; ex.owg.Done() }()
		t0 := time.Now()
		r, back := q.decide(ms, true)
		ex.omu.Lock()
		defer ex.omu.Unlock()
		done(r, q, back, time.Since(t0))
	}()
}
