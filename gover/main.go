package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	debug2 "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa/ssautil"
)

var specPkgs = []string{modPath, modPath + "/message", modPath + "/payload", modPath + "/requestManager", modPath + "/transport/memchan"}

// checkMain decides one property: gover check -prop C03 -tier quick -verif /verif -repo /repo.
func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	fs.Parse(args)
	debug2.SetGCPercent(300)
	c := &Checker{prop: *prop, tier: *tier, seed: *seed, verif: *verif, repo: *repo, start: time.Now(), limit: 720 * time.Second, natRuns: map[string]string{}}
	to := 10000
	if *tier == "thorough" {
		to = 40000
		c.limit = 3 * time.Hour
		crossCheck = true
	}
	if err := os.MkdirAll(*verif+"/build", 0755); err != nil {
		fmt.Println(err)
		return 2
	}
	scratch, err := os.MkdirTemp(*verif+"/build", "run")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	c.scratch = scratch
	l := NewLoader(*repo, *verif+"/spec")
	if err := l.Load(specPkgs...); err != nil {
		fmt.Println("load:", err)
		return 2
	}
	for _, d := range l.dropped {
		fmt.Println("contract file set aside:", d)
	}
	eng := &Engine{l: l, tags: map[string]int64{}, opts: Options{timeoutMs: to, maxPaths: 50000, useContr: true}}
	registerIntrinsics(eng)
	c.eng = eng
	c.units = eng.setup()
	eng.mutable = eng.mutableGlobals()
	c.known = readFindings(*verif + "/known_findings.txt")
	defer solverPool.closeAll()
	return c.run()
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	pat := flag.String("unit", "", "unit name substring")
	prop := flag.String("prop", "", "property")
	debug := flag.Bool("debug", false, "")
	dl := flag.Bool("loops", false, "")
	nat := flag.String("native", "", "run this unit natively")
	unroll := flag.Int("unroll", 0, "")
	to := flag.Int("timeout", 10000, "")
	prof := flag.String("cpuprofile", "", "")
	dump := flag.String("ssa", "", "print the SSA of functions whose name contains this")
	flag.Parse()
	debug2.SetGCPercent(400)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	l := NewLoader(*repo, *spec)
	if err := l.Load(specPkgs...); err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	for _, d := range l.dropped {
		fmt.Println("dropped:", d)
	}
	eng := &Engine{l: l, tags: map[string]int64{}, opts: Options{timeoutMs: *to, maxPaths: 50000, debug: *debug, debugLoops: *dl, useContr: true, unroll: *unroll}}
	if *dump != "" {
		for fn := range ssautil.AllFunctions(l.prog) {
			if strings.Contains(fn.String(), *dump) {
				fn.WriteTo(os.Stdout)
			}
		}
		return
	}
	registerIntrinsics(eng)
	units := eng.setup()
	eng.mutable = eng.mutableGlobals()
	fmt.Printf("loaded in %v, %d units\n", time.Since(t0), len(units))
	if *nat != "" {
		// development: one unit natively, on random inputs
		d, _ := os.MkdirTemp("", "nat")
		defer os.RemoveAll(d)
		n := buildNative(l, units, d, "/verif/build/gocache")
		if n.err != nil {
			fmt.Println(n.err)
			return
		}
		rs, se, err := n.run(5*time.Minute, "-unit", *nat, "-random", "300", "-seed", "1", "-budget", "10s")
		for _, r := range rs {
			fmt.Println(r.Failed, r.Panicked, r.Seed, len(r.Log))
		}
		fmt.Println(len(rs), "failing runs", err, se)
		return
	}
	var sel []*Unit
	for _, u := range units {
		if regexp.MustCompile(*pat).MatchString(u.name) && (*prop == "" || strings.Contains(u.name, *prop)) {
			sel = append(sel, u)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	bad := 0
	for _, u := range sel {
		wg.Add(1)
		go func(u *Unit) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			t0 := time.Now()
			ex := eng.runUnit(u, nil)
			mu.Lock()
			defer mu.Unlock()
			fmt.Printf("== %s: %d paths, %d leaves, %d steps, %d queries, %v (solver %v) loops cut %d\n", u.name, ex.npaths, ex.leaves, ex.nsteps, ex.nq, time.Since(t0).Round(time.Millisecond), ex.qtime.Round(time.Millisecond), ex.nloops)
			for _, o := range ex.sortedObls() {
				s := "ok"
				if o.ok < o.n {
					s = "FAIL"
					bad++
				}
				fmt.Printf("   %-4s %s %d/%d %v\n", s, o.id, o.ok, o.n, o.back)
				for i, f := range o.fails {
					if i < 2 {
						fmt.Printf("        %s: %s\n", f.why, f.msg)
						if len(f.path) > 0 {
							fmt.Printf("        path: %s\n", strings.Join(f.path, "; "))
						}
						if d := os.Getenv("GOVER_DUMP"); d != "" && f.as != nil {
							os.WriteFile(d, []byte(ex.tb.BuildQuery(f.as, f.cands).text+"(check-sat)\n(get-model)\n"), 0644)
						}
						if f.st != nil {
							ex.printModel(f)
						}
					}
				}
			}
			for e := range ex.expect {
				if !ex.covers[e] {
					fmt.Printf("   FAIL not covered: %s\n", e)
				}
			}
			if len(ex.bounded) > 0 {
				fmt.Println("   bounded:", sortedKeys(ex.bounded))
			}
			sat := false
			for _, o := range ex.obls {
				for _, f := range o.fails {
					sat = sat || f.why != "unknown"
				}
			}
			if sat && os.Getenv("GOVER_FAILFAST") != "" {
				solverPool.closeAll()
				os.Exit(1)
			}
			if *debug || os.Getenv("GOVER_ASSUME") != "" {
				for _, a := range sortedKeys(ex.assume) {
					fmt.Println("   assume:", a)
				}
			}
		}(u)
	}
	wg.Wait()
	solverPool.closeAll()
	fmt.Println("total", time.Since(t0), "failed", bad)
}

func (ex *Exec) printModel(f *Fail) {
	var want []*Term
	seen := map[*Term]bool{}
	for _, r := range f.nd {
		valLeaves(r.v, func(t *Term) {
			if !seen[t] && !t.isConst() {
				seen[t] = true
				want = append(want, t)
			}
		})
	}
	if len(want) == 0 {
		return
	}
	m, ok := ex.tb.Model(f.as, f.cands, want, 5000)
	if !ok {
		fmt.Println("        no model")
		return
	}
	var parts []string
	for _, r := range f.nd {
		var vs []string
		valLeaves(r.v, func(t *Term) {
			if t.isConst() {
				vs = append(vs, t.k.String())
			} else if v, ok := m[t]; ok {
				vs = append(vs, v.String())
			} else {
				vs = append(vs, "?")
			}
		})
		parts = append(parts, r.name+"="+strings.Join(vs, ","))
	}
	fmt.Println("        model:", strings.Join(parts, " "))
}

var _ = sort.Strings
