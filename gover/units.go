package main

// Units: package initialisation, harness functions, contracts, lock specifications.

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	name  string
	fn    *ssa.Function
	contr bool
	props []string // named by the unit
	also  []string // further properties it has obligations for
}

var propRe = regexp.MustCompile(`C\d\d`)

func (eng *Engine) ownPkgs() []*ssa.Package {
	var out []*ssa.Package
	for _, path := range eng.l.order {
		if path == modPath || strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, vrtPath) {
			out = append(out, eng.l.ssaPkgs[path])
		}
	}
	return out
}

func unthunk(prog *ssa.Program, fn *ssa.Function) *ssa.Function {
	if fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok {
			if r := prog.FuncValue(o); r != nil {
				return r
			}
		}
	}
	return fn
}

// alsoProps finds the properties for which a unit states obligations: labels in the specification
// functions it is made of, and the properties of the locks if it works on shared objects.
func (eng *Engine) alsoProps(u *Unit) {
	set := map[string]bool{}
	for _, p := range u.props {
		set[p] = true
	}
	add := func(p string) {
		if propRe.MatchString(p) && !set[p[:3]] {
			set[p[:3]] = true
			u.also = append(u.also, p[:3])
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || !eng.l.isSpec(fn) {
			return
		}
		seen[fn] = true
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						visit(unthunk(eng.l.prog, x))
					case *ssa.Const:
						if x.Value != nil && x.Value.Kind() == constant.String {
							if s := constant.StringVal(x.Value); labelRe.MatchString(s) {
								add(s)
							}
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				switch c.Common().StaticCallee().String() {
				case vrtPath + ".PanicProp", vrtPath + ".BlockProp":
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						add(constant.StringVal(k.Value))
					}
				case vrtPath + ".Share":
					add("C19")
					for _, ls := range eng.locks {
						if n, ok := ls.typ.(*types.Named); ok && n.Obj().Pkg() == u.fn.Pkg.Pkg {
							add(ls.prop)
							add(ls.guarP)
						}
					}
				}
			}
		}
	}
	visit(u.fn)
	sort.Strings(u.also)
}

var labelRe = regexp.MustCompile(`^C\d\d\.`)

// setup finds contracts, lock specifications and units in the contract files.
func (eng *Engine) setup() []*Unit {
	eng.contracts = map[*ssa.Function]*ssa.Function{}
	eng.stubs = map[*ssa.Function]*ssa.Function{}
	eng.boundary = map[*ssa.Function]bool{}
	eng.chans = map[string]*ChanSpec{}
	eng.locks = map[string]*LockSpec{}
	eng.guarded = map[string]string{}
	eng.guardedMaps = map[string]string{}
	eng.atomics = map[string]*ssa.Function{}
	eng.atomicProp = map[string]string{}
	eng.atRely = map[string]*ssa.Function{}
	var units []*Unit
	eng.refQuant = map[string]bool{}
	for _, pkg := range eng.ownPkgs() {
		for _, mem := range pkg.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok || !eng.l.isSpec(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if cf := c.Call.StaticCallee(); cf != nil && strings.HasPrefix(cf.String(), vrtPath+".ForallRefs") {
						pt := cf.Signature.Params().At(0).Type().(*types.Signature).Params().At(0).Type()
						eng.refQuant["key:"+typeKey(pt)] = true
					}
				}
			}
		}
	}
	for _, pkg := range eng.ownPkgs() {
		if init := pkg.Func("init"); init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					callee := c.Call.StaticCallee()
					if callee == nil || callee.String() != vrtPath+".Contract" && callee.String() != vrtPath+".Boundary" && callee.String() != vrtPath+".Stub" {
						continue
					}
					var fs []*ssa.Function
					for _, a := range c.Call.Args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if ct, ok := a.(*ssa.ChangeType); ok {
							a = ct.X
						}
						if fn, ok := a.(*ssa.Function); ok {
							fs = append(fs, unthunk(eng.l.prog, fn))
						}
					}
					if len(fs) == 2 && callee.Name() == "Stub" {
						eng.stubs[fs[0]] = fs[1]
					} else if len(fs) == 2 {
						eng.contracts[fs[0]] = fs[1]
						eng.boundary[fs[0]] = callee.Name() == "Boundary"
						units = append(units, &Unit{name: fs[1].Name(), fn: fs[1], contr: true, props: propRe.FindAllString(fs[1].Name(), -1)})
					}
				}
			}
		}
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		cst := func(n string) string {
			if c, ok := pkg.Members[n].(*ssa.NamedConst); ok && c.Value.Value.Kind() == constant.String {
				return constant.StringVal(c.Value.Value)
			}
			return ""
		}
		for _, n := range names {
			if fn, ok := pkg.Members[n].(*ssa.Function); ok && eng.l.isSpec(fn) && strings.HasPrefix(n, "prove_") {
				units = append(units, &Unit{name: n, fn: fn, props: propRe.FindAllString(n, -1)})
			}
			if strings.HasPrefix(n, "vatomic_") {
				p := strings.SplitN(strings.TrimPrefix(n, "vatomic_"), "_", 2)
				if fn, ok := pkg.Members[n].(*ssa.Function); ok {
					if t := pkg.Type(p[0]); t != nil {
						k := typeKey(t.Type()) + "." + p[1]
						eng.atomics[k] = fn
						if r, ok := pkg.Members["vatrely_"+strings.TrimPrefix(n, "vatomic_")].(*ssa.Function); ok {
							eng.atRely[k] = r
						}
						eng.atomicProp[k] = cst("vprop_" + p[0] + "_" + p[1])
					}
				}
			}
			if strings.HasPrefix(n, "vchan_") {
				nm := strings.TrimPrefix(n, "vchan_")
				p := strings.SplitN(nm, "_", 2)
				if t := pkg.Type(p[0]); t != nil {
					get := func(pfx string) *ssa.Function {
						fn, _ := pkg.Members[pfx+nm].(*ssa.Function)
						return fn
					}
					eng.chans[typeKey(t.Type())+"."+p[1]] = &ChanSpec{typ: t.Type(), prop: cst(n), send: get("vsend_"), recv: get("vrecv_"), canSend: get("vcansend_"), canRecv: get("vcanrecv_")}
				}
				continue
			}
			if !strings.HasPrefix(n, "vguard_") {
				continue
			}
			p := strings.SplitN(strings.TrimPrefix(n, "vguard_"), "_", 2)
			t := pkg.Type(p[0])
			if t == nil {
				continue
			}
			ls := &LockSpec{key: typeKey(t.Type()) + "." + p[1], typ: t.Type(), prop: cst("vprop_" + p[0] + "_" + p[1])}
			if ls.prop == "" {
				ls.prop = "C19"
			}
			for _, f := range strings.Fields(cst(n)) {
				switch {
				case strings.HasPrefix(f, "map:"):
					ls.maps = append(ls.maps, f[4:])
					eng.guardedMaps[f[4:]] = ls.key
				case strings.HasPrefix(f, "view:"):
					ls.views = append(ls.views, f[5:])
				case strings.HasPrefix(f, "state:"):
					ls.state = append(ls.state, f[6:])
				case strings.HasPrefix(f, "chan:"):
					ls.chans = append(ls.chans, f[5:])
					eng.guarded[typeKey(t.Type())+"."+f[5:]+"!"] = ls.key
				default:
					ls.fields = append(ls.fields, f)
					eng.guarded[typeKey(t.Type())+"."+f] = ls.key
				}
			}
			get := func(pfx string) *ssa.Function {
				fn, _ := pkg.Members[pfx+p[0]+"_"+p[1]].(*ssa.Function)
				return fn
			}
			ls.inv, ls.trans, ls.rely, ls.stable, ls.step, ls.own = get("vinv_"), get("vtrans_"), get("vrely_"), get("vstable_"), get("vstep_"), get("vown_")
			ls.guar, ls.guarP = get("vguar_"), ls.prop
			if c, ok := pkg.Members["vguarprop_"+p[0]+"_"+p[1]].(*ssa.NamedConst); ok {
				ls.guarP = constant.StringVal(c.Value.Value)
			}
			eng.locks[ls.key] = ls
		}
	}
	for _, u := range units {
		eng.alsoProps(u)
	}
	return units
}

// mutableGlobals are the package variables written outside package initialisation.
func (eng *Engine) mutableGlobals() map[*ssa.Global]bool {
	m := map[*ssa.Global]bool{}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 12 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			return root(x.X, d+1)
		case *ssa.IndexAddr:
			return root(x.X, d+1)
		case *ssa.UnOp:
			return root(x.X, d+1)
		case *ssa.Slice:
			return root(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if g := root(e, d+1); g != nil {
					return g
				}
			}
		}
		return nil
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := root(x.Addr, 0); g != nil {
						m[g] = true
					}
				case *ssa.MapUpdate:
					if g := root(x.Map, 0); g != nil {
						m[g] = true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "delete") {
						if g := root(x.Call.Args[0], 0); g != nil && bi.Name() != "append" {
							m[g] = true
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, pkg := range eng.ownPkgs() {
		for _, mem := range pkg.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				if x.Name() != "init" && !strings.HasPrefix(x.Name(), "init#") && !eng.l.isSpec(x) {
					visit(x)
				}
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := eng.l.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := eng.l.prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" && !eng.l.isSpec(fn) {
							visit(fn)
						}
					}
				}
			}
		}
	}
	return m
}

// initState is the program state after package initialisation.
func (ex *Exec) initState(fn *ssa.Function) *State {
	st := ex.newState()
	need := map[string]bool{}
	var deps func(p *types.Package)
	deps = func(p *types.Package) {
		if need[p.Path()] {
			return
		}
		need[p.Path()] = true
		for _, q := range p.Imports() {
			deps(q)
		}
	}
	deps(fn.Package().Pkg)
	st.noObl = true
	st.ghost["$seq"] = ex.tb.one
	mut := ex.eng.mutable
	for _, path := range ex.eng.l.order {
		if !need[path] || ex.eng.l.infos[path] == nil || strings.HasPrefix(path, vrtPath) {
			continue
		}
		pkg := ex.eng.l.ssaPkgs[path]
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok {
				ex.zeroInit(st, "glob:"+g.String(), g.Type().(*types.Pointer).Elem(), ex.tb.one)
			}
		}
	}
	for _, path := range ex.eng.l.order {
		if !need[path] || ex.eng.l.infos[path] == nil || strings.HasPrefix(path, vrtPath) {
			continue
		}
		pkg := ex.eng.l.ssaPkgs[path]
		var ini []*ssa.Function
		if f := pkg.Func("init"); f != nil {
			ini = append(ini, f)
		}
		for _, f := range ini {
			st.frames0 = 0
			fr := ex.pushCall(st, f, nil, nil, nil)
			fr.pure = false
			var fin *State
			cur := []*State{st}
			for len(cur) > 0 {
				s := cur[len(cur)-1]
				cur = cur[:len(cur)-1]
				for {
					succ, ok := ex.safeStep(s)
					if !ok || len(succ) == 0 {
						break
					}
					if len(succ) > 1 {
						cur = append(cur, succ[1:]...)
					}
					s = succ[0]
					if len(s.stack) == 0 {
						fin = s
						break
					}
				}
			}
			if fin == nil {
				panic(unsup("package initialisation of " + path + " not executable: " + ex.lastFail))
			}
			st = fin
			st.stack = nil
		}
	}
	for g := range mut {
		if !need[g.Pkg.Pkg.Path()] {
			continue
		}
		ex.assume["package variable "+g.String()+" is written at run time: its contents are taken as arbitrary"] = true
		ex.havocLoc(st, Loc{key: "glob:" + g.String(), a: ex.tb.one}, g.Type().(*types.Pointer).Elem(), ex.freshVer(st))
	}
	delete(st.ghost, "$seq")
	st.noObl = false
	st.done = false
	ex.npaths = 0
	return st
}

// runUnit verifies one harness or contract.
func (eng *Engine) runUnit(u *Unit, opts func(ex *Exec)) (ex *Exec) {
	ex = newExec(eng, u.name)
	if opts != nil {
		opts(ex)
	}
	defer ex.owg.Wait()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupported); ok {
				ex.fail(nil, "tool-limit", e.msg)
				return
			}
			panic(fmt.Sprintf("%v in unit %s", r, u.name))
		}
	}()
	st := ex.initState(u.fn)
	var args []Val
	ver := ex.freshVer(st)
	for _, p := range u.fn.Params {
		args = append(args, ex.freshVal(st, "arg_"+p.Name(), p.Type(), ver))
	}
	fr := ex.pushCall(st, u.fn, args, nil, nil)
	fr.pure = true
	ex.run(st, func(st *State) {
		if st.frame != nil {
			ex.checkFrame(st)
		}
		if len(st.locks) > 0 {
			var ks []string
			for _, h := range st.locks {
				ks = append(ks, shortKey(h.key)+" (taken at "+h.pos+")")
			}
			ex.oblig(st, "C19.locks-released", "lock", "-", ex.tb.fls, "locks still held at the end: "+strings.Join(ks, ", "))
		} else {
			ex.oblig(st, "C19.locks-released", "lock", "-", ex.tb.tru, "")
		}
		ex.leaves++
	})
	return ex
}
