package main

// The check of one property: run its units, turn failed obligations into replayed counterexamples,
// write the evidence file.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type Finding struct{ prop, unit, label, text string }

type Verdict struct {
	Property  string
	Unit      string
	Label     string
	Kind      string // confirmed, no-input, undecided, bounded
	Why       string
	Message   string
	Source    string
	Path      []string
	Tape      []TapeRec `json:",omitempty"`
	Native    *NativeResult
	Solver    string `json:",omitempty"`
	Query     string `json:",omitempty"`
	Rerun     string
	Functions []string
}

type Checker struct {
	eng     *Engine
	prop    string
	tier    string
	seed    int64
	verif   string
	repo    string
	scratch string
	units   []*Unit
	byFn    map[string]*Unit
	known   []Finding
	native  *Native
	natOnce sync.Once
	res     map[string]*Exec
	start   time.Time
	limit   time.Duration
	out     []*Verdict
	notes   []string
	mu      sync.Mutex
	natRuns map[string]string
}

var knownRe = regexp.MustCompile(`^known: property=(\S+) unit=(\S+) label=(\S+) (.*)$`)

func readFindings(path string) []Finding {
	b, _ := os.ReadFile(path)
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, Finding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

func (c *Checker) relevant(u *Unit, id string) bool {
	if strings.HasPrefix(id, c.prop+".") || strings.HasPrefix(id, "pre.") {
		return true
	}
	return id == "tool-limit" || id == "path-limit"
}

func hasProp(u *Unit, p string) bool {
	return contains(u.props, p) || contains(u.also, p)
}

// named: the unit is about the property; others only have some obligation for it.
func named(u *Unit, p string) bool { return contains(u.props, p) }

func (c *Checker) remaining() time.Duration { return c.limit - time.Since(c.start) }

// runAll runs units in parallel.
func (c *Checker) runAll(us []*Unit, f func(u *Unit) func(ex *Exec)) map[string]*Exec {
	out := map[string]*Exec{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, u := range us {
		wg.Add(1)
		sem <- true
		go func(u *Unit) {
			defer wg.Done()
			defer func() { <-sem }()
			ex := c.eng.runUnitSafe(u, f(u))
			mu.Lock()
			out[u.name] = ex
			mu.Unlock()
		}(u)
	}
	wg.Wait()
	return out
}

func (eng *Engine) runUnitSafe(u *Unit, opts func(ex *Exec)) (ex *Exec) {
	defer func() {
		if r := recover(); r != nil {
			ex = newExec(eng, u.name)
			ex.fail(nil, "tool-limit", fmt.Sprint("verifier fault: ", r))
		}
	}()
	return eng.runUnit(u, opts)
}

func (c *Checker) nat() *Native {
	c.natOnce.Do(func() {
		c.native = buildNative(c.eng.l, c.units, filepath.Join(c.scratch, "native"), filepath.Join(c.verif, "build", "gocache"))
		if c.native.err != nil {
			c.notes = append(c.notes, "native runner not available: "+c.native.err.Error())
		}
	})
	return c.native
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// shows tells whether a native run exhibits a failure of this property (the given label first).
func (c *Checker) shows(u *Unit, r *NativeResult, ex *Exec) (string, bool) {
	if r == nil || r.Skipped || r.Symbolic {
		return "", false
	}
	for _, f := range r.Failed {
		if strings.HasPrefix(f, c.prop+".") {
			return f, true
		}
	}
	if r.Panicked != "" {
		pp := propOf(u.name)
		if ex != nil && ex.panicProp != "" {
			pp = ex.panicProp
		}
		if strings.HasPrefix(r.Panicked, "blocked:") && ex != nil && ex.blockProp != "" {
			pp = ex.blockProp
		}
		if pp == c.prop {
			if strings.HasPrefix(r.Panicked, "blocked:") {
				return pp + ".never-blocks", true
			}
			return pp + ".no-panic", true
		}
	}
	return "", false
}

// replay looks for a tape for the failed obligation that fails natively.
func (c *Checker) replay(u *Unit, ex *Exec, o *Obl) (tape []TapeRec, nr *NativeResult, label string, symbolic bool) {
	n := c.nat()
	if n.err != nil || u.contr {
		return nil, nil, "", true
	}
	tries := 0
	for _, f := range o.fails {
		if f.as == nil || f.why == "tool-limit" {
			continue
		}
		for _, limit := range []int64{8, 64, 600, 0} {
			if tries > 8 || c.remaining() < 20*time.Second {
				return
			}
			t, ok := ex.modelTape(f, limit, 6000)
			if !ok {
				continue
			}
			tries++
			r, err := n.tape(u.name, t)
			if err != nil {
				c.notes = append(c.notes, "replay "+u.name+": "+err.Error())
				break
			}
			if r.Symbolic {
				return t, r, "", true
			}
			if l, bad := c.shows(u, r, ex); bad {
				return t, r, l, false
			}
		}
	}
	return
}

func (c *Checker) verdict(u *Unit, ex *Exec, o *Obl, kind string) *Verdict {
	v := &Verdict{Property: c.prop, Unit: u.name, Kind: kind, Label: o.id}
	if len(o.fails) > 0 {
		f := o.fails[0]
		v.Why, v.Message, v.Path, v.Source = f.why, f.msg, f.path, o.pos
		if f.as != nil {
			q := ex.tb.BuildQuery(f.as, f.cands).text
			if len(q) < 400000 {
				v.Query = q + "(check-sat)\n"
			}
		}
	}
	v.Functions = sortedKeys(ex.funcs)
	v.Rerun = fmt.Sprintf("cd /verif && ./check.sh %s quick", c.prop)
	return v
}

func (c *Checker) handle(u *Unit, ex *Exec, o *Obl) *Verdict {
	allUnknown, engine := true, o.kind == "engine"
	for _, f := range o.fails {
		if f.why == "sat" {
			allUnknown = false
		}
	}
	if engine {
		v := c.verdict(u, ex, o, "undecided")
		c.randomFor(u, ex, v, 4000)
		return v
	}
	tape, nr, label, symbolic := c.replay(u, ex, o)
	if label != "" {
		v := c.verdict(u, ex, o, "confirmed")
		v.Label, v.Tape, v.Native = label, tape, nr
		return v
	}
	if symbolic {
		if allUnknown {
			return c.verdict(u, ex, o, "undecided")
		}
		v := c.verdict(u, ex, o, "no-input")
		v.Tape = tape
		return v
	}
	v := c.verdict(u, ex, o, "bounded")
	if c.randomFor(u, ex, v, 4000) {
		return v
	}
	// without contracts and with loops unrolled instead of cut
	for _, k := range []int{3} {
		if c.remaining() < 60*time.Second {
			break
		}
		ex2 := c.eng.runUnitSafe(u, func(e *Exec) {
			e.opts.unroll, e.opts.useContr, e.opts.maxPaths = k, false, 4000
			e.opts.deadline = time.Now().Add(min(60*time.Second, c.remaining()-40*time.Second))
		})
		clean, sat := true, false
		for _, id := range ex2.oblSeq {
			o2 := ex2.obls[id]
			if o2.ok == o2.n || !c.relevant(u, id) {
				continue
			}
			if o2.kind == "engine" {
				clean = false
				continue
			}
			t, r, l, _ := c.replay(u, ex2, o2)
			if l != "" {
				v := c.verdict(u, ex2, o2, "confirmed")
				v.Label, v.Tape, v.Native = l, t, r
				return v
			}
			for _, f := range o2.fails {
				if f.why == "sat" {
					sat = true
				}
			}
		}
		if sat {
			v.Kind = "no-input"
		} else if !clean && !allUnknown {
			v.Kind = "undecided"
		}
	}
	return v
}

// randomFor runs the harness natively on pseudo-random inputs (the bounded stand-in).
func (c *Checker) randomFor(u *Unit, ex *Exec, v *Verdict, runs int) bool {
	n := c.nat()
	if n.err != nil || u.contr {
		return false
	}
	b := 5 * time.Second
	if c.tier == "thorough" {
		b = 20 * time.Second
	}
	if r, l := c.random(u, ex, runs, b); r != nil {
		v.Kind, v.Native, v.Label, v.Tape = "confirmed", r, l, r.Log
		return true
	}
	return false
}

func (c *Checker) random(u *Unit, ex *Exec, runs int, b time.Duration) (*NativeResult, string) {
	n := c.nat()
	rs, err := n.random(u.name, runs, c.seed, b)
	if err != nil {
		c.mu.Lock()
		c.notes = append(c.notes, "native runs of "+u.name+": "+err.Error())
		c.mu.Unlock()
	}
	for i := range rs {
		r := &rs[i]
		if r.Symbolic {
			c.mu.Lock()
			c.natRuns[u.name] = "not executable natively"
			c.mu.Unlock()
			return nil, ""
		}
		if l, bad := c.shows(u, r, ex); bad {
			again := 0
			for k := 0; k < 3; k++ { // it has to be reproducible
				r2, err := n.tape(u.name, r.Log)
				if len(r.Log) == 0 && r.Panicked != "" {
					r2, err = n.seedRun(u.name, r.Seed)
				}
				if err == nil {
					if _, bad := c.shows(u, r2, ex); bad {
						again++
					}
				}
			}
			if again == 3 {
				return r, l
			}
		}
	}
	return nil, ""
}

func (n *Native) seedRun(unit string, seed int64) (*NativeResult, error) {
	// the runner derives run seeds as seed*1000003+i+1
	base := (seed - 1) / 1000003
	i := (seed - 1) % 1000003
	rs, _, err := n.run(30*time.Second, "-unit", unit, "-random", fmt.Sprint(i+1), "-seed", fmt.Sprint(base))
	if len(rs) == 0 {
		if err == nil {
			err = fmt.Errorf("no failure")
		}
		return nil, err
	}
	return &rs[len(rs)-1], nil
}

// droppedUnits are units of the property in contract files that no longer fit the code.
func (c *Checker) droppedUnits() []string {
	var out []string
	re := regexp.MustCompile(`(?m)^func ((?:prove|contract)_\w*` + c.prop + `\w*)\(`)
	for _, d := range c.eng.l.dropped {
		b, _ := os.ReadFile(strings.SplitN(d, ":", 2)[0])
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			out = append(out, m[1])
		}
	}
	return out
}

func (c *Checker) run() int {
	var us []*Unit
	for _, u := range c.units {
		if hasProp(u, c.prop) {
			us = append(us, u)
		}
	}
	dropped := c.droppedUnits()
	if len(us) == 0 && len(dropped) == 0 {
		fmt.Println("no units for", c.prop)
		return 2
	}
	unitByContract := map[string]*Unit{}
	for _, u := range c.units {
		if u.contr {
			for f, cf := range c.eng.contracts {
				if cf == u.fn {
					unitByContract[f.String()] = u
				}
			}
		}
	}
	plain := func(u *Unit) func(ex *Exec) {
		return func(ex *Exec) {
			ex.opts.deadline = c.start.Add(c.limit * 6 / 10)
			if !u.contr {
				ex.opts.only = c.prop
			}
		}
	}
	c.res = c.runAll(us, plain)
	// contracts the proofs rest on are proved as well
	for {
		var more []*Unit
		for _, ex := range c.res {
			for f := range ex.usedC {
				if u := unitByContract[f]; u != nil && c.res[u.name] == nil && !containsUnit(more, u) {
					more = append(more, u)
				}
			}
		}
		if len(more) == 0 {
			break
		}
		for n, ex := range c.runAll(more, plain) {
			c.res[n] = ex
		}
	}
	// a contract that does not hold is not used: the bodies take its place
	broken := map[string]bool{}
	for f, u := range unitByContract {
		if ex := c.res[u.name]; ex != nil {
			for _, o := range ex.obls {
				if o.ok < o.n {
					broken[f] = true
				}
			}
		}
	}
	if len(broken) > 0 {
		c.notes = append(c.notes, "contracts not proved, bodies used instead: "+strings.Join(sortedKeys(broken), ", "))
		var again []*Unit
		for _, u := range us {
			for f := range c.res[u.name].usedC {
				if broken[f] && !containsUnit(again, u) {
					again = append(again, u)
				}
			}
		}
		for n, ex := range c.runAll(again, func(u *Unit) func(ex *Exec) {
			return func(ex *Exec) {
				plain(u)(ex)
				for f := range c.eng.contracts {
					if broken[f.String()] {
						ex.disable[f] = true
					}
				}
			}
		}) {
			c.res[n] = ex
		}
	}
	// outcomes
	names := sortedKeysE(c.res)
	for _, n := range names {
		ex := c.res[n]
		var u *Unit
		for _, x := range c.units {
			if x.name == n {
				u = x
			}
		}
		mine := hasProp(u, c.prop)
		if !mine {
			continue
		}
		var confirmedHere bool
		for _, id := range ex.oblSeq {
			o := ex.obls[id]
			if o.ok == o.n || !c.relevant(u, id) {
				continue
			}
			if u.contr && len(broken) > 0 && c.hasDependents(u, us) {
				continue // decided by the units that use the function
			}
			if confirmedHere && o.kind == "engine" {
				continue
			}
			v := c.handle(u, ex, o)
			if v.Kind == "confirmed" {
				confirmedHere = true
			}
			c.out = append(c.out, v)
		}
		if ex.obls["tool-limit"] == nil && ex.obls["path-limit"] == nil {
			for e := range ex.expect {
				if named(u, c.prop) && !ex.covers[e] {
					c.out = append(c.out, &Verdict{Property: c.prop, Unit: n, Label: c.prop + ".reachable[" + e + "]", Kind: "no-input", Why: "unreachable",
						Message: "no execution reaches the situation the property speaks about: " + e})
				}
			}
		}
	}
	for _, d := range dropped {
		c.out = append(c.out, &Verdict{Property: c.prop, Unit: d, Label: "contract-file", Kind: "undecided", Why: "type-check",
			Message: "the contract file does not fit the code any more"})
	}
	// native runs of every unit: a sanity net under the verifier
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	if n := c.nat(); n.err == nil {
		for _, u := range us {
			if u.contr {
				continue
			}
			wg.Add(1)
			sem <- true
			go func(u *Unit) {
				defer wg.Done()
				defer func() { <-sem }()
				runs, b := 300, 1500*time.Millisecond
				if c.tier == "thorough" {
					runs, b = 100000, 15*time.Second
				}
				r, l := c.random(u, c.res[u.name], runs, b)
				c.mu.Lock()
				defer c.mu.Unlock()
				if c.natRuns[u.name] == "" {
					c.natRuns[u.name] = fmt.Sprintf("up to %d", runs)
				}
				if r != nil {
					dup := false
					for _, v := range c.out {
						dup = dup || v.Kind == "confirmed" && v.Unit == u.name && v.Label == l
					}
					if !dup {
						c.out = append(c.out, &Verdict{Property: c.prop, Unit: u.name, Label: l, Kind: "confirmed", Why: "native run", Message: "found by a native run", Tape: r.Log, Native: r})
					}
				}
			}(u)
		}
	}
	wg.Wait()
	return c.report(us)
}

func (c *Checker) hasDependents(cu *Unit, us []*Unit) bool {
	for f, cf := range c.eng.contracts {
		if cf == cu.fn {
			for _, u := range us {
				if ex := c.res[u.name]; ex != nil && u != cu && (ex.usedC[f.String()] || ex.disable[f] && ex.funcs[f.String()]) {
					return true
				}
			}
		}
	}
	return false
}

func containsUnit(l []*Unit, u *Unit) bool {
	for _, x := range l {
		if x == u {
			return true
		}
	}
	return false
}

func sortedKeysE(m map[string]*Exec) []string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func (c *Checker) report(us []*Unit) int {
	code := 0
	os.MkdirAll(filepath.Join(c.verif, "build", "replays"), 0755)
	nviol := 0
	shown := map[string]bool{}
	var undecided, bounded, knownSeen []string
	// Violations with a failing input come first. When there is one, the
	// other failed obligations are listed without a VIOLATION line of theirs.
	sort.SliceStable(c.out, func(i, j int) bool {
		return c.out[i].Kind == "confirmed" && c.out[j].Kind != "confirmed"
	})
	confirmed := false
	for _, v := range c.out {
		kf := false
		for _, k := range c.known {
			if k.prop == c.prop && k.unit == v.Unit && k.label == v.Label {
				kf = true
				if !contains(knownSeen, k.text) {
					knownSeen = append(knownSeen, k.text)
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k.text)
				}
			}
		}
		if kf {
			continue
		}
		line := fmt.Sprintf("%s %s: %s (%s)", v.Unit, v.Label, v.Message, v.Why)
		switch v.Kind {
		case "undecided":
			undecided = append(undecided, line)
			fmt.Println("undecided:", line)
			continue
		case "bounded":
			bounded = append(bounded, line)
			fmt.Println("not proved, clean within bounds:", line)
			continue
		}
		key := v.Unit + "/" + v.Label
		if shown[key] {
			continue
		}
		shown[key] = true
		nviol++
		name := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(fmt.Sprintf("%s-%s-%s", c.prop, strings.TrimPrefix(v.Unit, "prove_"), v.Label), "_")
		path := filepath.Join(c.verif, "build", "replays", name+".json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("failed obligation %s in %s at %s: %s\n", v.Label, v.Unit, v.Source, v.Message)
		if v.Kind == "confirmed" {
			confirmed = true
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		} else if confirmed {
			fmt.Printf("also failed, without a failing input of its own: %s\n", path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, path)
		}
		code = 1
	}
	c.evidence(us, undecided, bounded, knownSeen, nviol)
	return code
}

func (c *Checker) evidence(us []*Unit, undecided, bounded, known []string, nviol int) {
	total, ok, bTotal, bOK := 0, 0, 0, 0
	backs := map[string]int{}
	secs := 0.0
	funcs, asm, loops := map[string]bool{}, map[string]bool{}, 0
	per := map[string]any{}
	contracts := map[string]bool{}
	paths, safe, safeOK := 0, 0, 0
	var slow []string
	for _, n := range sortedKeysE(c.res) {
		ex := c.res[n]
		un, uo := 0, 0
		var u *Unit
		for _, x := range c.units {
			if x.name == n {
				u = x
			}
		}
		for id, o := range ex.obls {
			if hasProp(u, c.prop) && !c.relevant(u, id) {
				continue
			}
			un += o.n
			uo += o.ok
			secs += o.secs
			for b, k := range o.back {
				backs[b] += k
			}
		}
		if pp := ex.panicProp; pp == c.prop || pp == "" && propOf(n) == c.prop { // absence of panics is the property
			un += ex.nsafe
			uo += ex.nsafeOK
		}
		if len(ex.bounded) > 0 { // within a bound only: never counted as proved
			bTotal += un
			bOK += uo
		} else {
			total += un
			ok += uo
		}
		paths += ex.npaths
		safe += ex.nsafe
		safeOK += ex.nsafeOK
		loops += ex.nloops
		for f := range ex.funcs {
			funcs[f] = true
		}
		for a := range ex.assume {
			asm[a] = true
		}
		for f := range ex.usedC {
			contracts[f] = true
		}
		for b := range ex.bounded {
			bounded = append(bounded, n+": "+b)
		}
		per[n] = map[string]any{"obligations": un, "discharged": uo, "paths": ex.npaths, "loops_cut": ex.nloops, "bounded": len(ex.bounded) > 0}
	}
	_ = slow
	var trusted []string
	for _, a := range sortedKeys(asm) {
		trusted = append(trusted, a)
	}
	trusted = append(trusted, "the verifier itself (gover: Go SSA to verification conditions), golang.org/x/tools/go/ssa, the SMT solvers",
		"functions of encoding/binary, unicode/utf8, unicode/utf16 and math/bits are executed from their source, not trusted")
	smtStats.Lock()
	q := map[string]any{}
	for k, v := range smtStats.Queries {
		q[k] = map[string]any{"queries": v, "seconds": smtStats.Time[k].Seconds()}
	}
	errs, dis, cross := smtStats.Errors, smtStats.Disagree, smtStats.Cross
	smtStats.Unlock()
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "proof",
		"coverage": map[string]any{
			"obligations": total, "discharged": ok,
			"checker_cmd":              "./check.sh " + c.prop + " " + c.tier,
			"trusted_base":             trusted,
			"functions_executed":       sortedKeys(funcs),
			"contracts_used":           sortedKeys(contracts),
			"units":                    per,
			"paths":                    paths,
			"safety_checks":            safe,
			"safety_checks_discharged": safeOK,
			"loops_cut_with_invariant": loops,
			"discharged_by":            backs,
			"solver_seconds":           secs,
			"solver_queries":           q,
			"solver_errors":            errs,
			"cross_checked_with_cvc5":  cross,
			"cross_check_disagree":     dis,
			"undecided":                undecided,
			"bounded":                  bounded,
			"bounded_obligations":      map[string]any{"checked": bTotal, "passed": bOK},
			"known_findings":           known,
			"native_runs":              c.natRuns,
			"notes":                    c.notes,
		},
		"assumptions": trusted,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  nviol,
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d/%d obligations discharged in %d units, %d functions, %.1f s\n", c.prop, ok, total, len(c.res), len(funcs), time.Since(c.start).Seconds())
}
