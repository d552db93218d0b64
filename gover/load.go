package main

// Loading: type-checks /repo's current source (plus the contract files laid over it) and builds SSA.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loader struct {
	fset     *token.FileSet
	repo     string
	specDir  string
	ctx      build.Context
	pkgs     map[string]*types.Package
	infos    map[string]*types.Info
	files    map[string][]*ast.File
	loading  map[string]bool
	prog     *ssa.Program
	ssaPkgs  map[string]*ssa.Package
	withBody map[string]bool // std packages executed from their own source
	order    []string
	dropped  []string // optional contract files that no longer type-check
	errs     []string
	srcFiles []string
}

var stdBodies = []string{"encoding/binary", "unicode/utf16", "unicode/utf8", "math/bits"}

func NewLoader(repo, spec string) *Loader {
	l := &Loader{fset: token.NewFileSet(), repo: repo, specDir: spec, ctx: build.Default,
		pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{}, files: map[string][]*ast.File{}, loading: map[string]bool{},
		ssaPkgs: map[string]*ssa.Package{}, withBody: map[string]bool{}}
	l.ctx.CgoEnabled = false
	l.ctx.GOPATH = ""
	if r := os.Getenv("GOVER_GOROOT"); r != "" {
		l.ctx.GOROOT = r
	}
	for _, p := range stdBodies {
		l.withBody[p] = true
	}
	return l
}

func (l *Loader) dirOf(path string) (dir string, own bool) {
	switch {
	case path == modPath:
		return l.repo, true
	case strings.HasPrefix(path, modPath+"/vrt"):
		return filepath.Join(l.specDir, "vrt"), true
	case strings.HasPrefix(path, modPath+"/"):
		return filepath.Join(l.repo, path[len(modPath)+1:]), true
	}
	d := filepath.Join(l.repo, "vendor", path)
	if st, err := os.Stat(d); err == nil && st.IsDir() && strings.Contains(path, ".") {
		return d, true
	}
	d = filepath.Join(l.ctx.GOROOT, "src", path)
	if _, err := os.Stat(d); err == nil {
		return d, false
	}
	return filepath.Join(l.ctx.GOROOT, "src/vendor", path), false
}

// specFilesFor returns the contract files for a package.
func (l *Loader) specFilesFor(path string) []string {
	var sub string
	switch {
	case path == modPath:
		sub = "root"
	case strings.HasPrefix(path, modPath+"/vrt"):
		return nil
	case strings.HasPrefix(path, modPath+"/"):
		sub = path[len(modPath)+1:]
	default:
		return nil
	}
	fs, _ := filepath.Glob(filepath.Join(l.specDir, sub, "*.go"))
	var out []string
	for _, f := range fs {
		if !strings.HasSuffix(f, "_test.go") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	if l.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.loading[path] = true
	defer delete(l.loading, path)
	dir, own := l.dirOf(path)
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		if _, ok := err.(*build.MultiplePackageError); !ok {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
	}
	var files []*ast.File
	mode := parser.SkipObjectResolution | parser.ParseComments
	for _, n := range bp.GoFiles {
		fn := filepath.Join(dir, n)
		f, err := parser.ParseFile(l.fset, fn, nil, mode)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		if own {
			l.srcFiles = append(l.srcFiles, fn)
		}
	}
	body := own || l.withBody[path]
	specs := l.specFilesFor(path)
	var specASTs []*ast.File
	for _, fn := range specs {
		f, err := parser.ParseFile(l.fset, fn, nil, mode)
		if err != nil {
			return nil, err
		}
		specASTs = append(specASTs, f)
	}
	check := func(fs []*ast.File) (*types.Package, *types.Info, []types.Error) {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		var errs []types.Error
		conf := types.Config{Importer: l, IgnoreFuncBodies: !body, FakeImportC: true, Sizes: types.SizesFor("gc", "amd64"),
			Error: func(e error) {
				if te, ok := e.(types.Error); ok {
					errs = append(errs, te)
				}
			}}
		var pi *types.Info
		if body {
			pi = info
		}
		p, _ := conf.Check(path, l.fset, fs, pi)
		return p, info, errs
	}
	for {
		p, info, errs := check(append(append([]*ast.File{}, files...), specASTs...))
		var hard []types.Error
		for _, e := range errs {
			if !e.Soft {
				hard = append(hard, e)
			}
		}
		if len(hard) == 0 || !own {
			l.pkgs[path] = p
			if body {
				l.infos[path] = info
				l.files[path] = append(append([]*ast.File{}, files...), specASTs...)
			}
			l.order = append(l.order, path)
			return p, nil
		}
		// a contract file that no longer fits the code is set aside, and reported
		bad := map[string]string{}
		for _, e := range hard {
			fn := l.fset.Position(e.Pos).Filename
			if strings.HasPrefix(fn, l.specDir) {
				bad[fn] = e.Error()
			} else {
				return nil, fmt.Errorf("type error in source: %v", e)
			}
		}
		var rest []*ast.File
		for _, f := range specASTs {
			fn := l.fset.Position(f.Package).Filename
			if m, ok := bad[fn]; ok {
				l.dropped = append(l.dropped, fn+": "+m)
			} else {
				rest = append(rest, f)
			}
		}
		specASTs = rest
	}
}

// Load builds SSA for the given import paths.
func (l *Loader) Load(paths ...string) error {
	for _, p := range paths {
		if _, err := l.Import(p); err != nil {
			return err
		}
	}
	l.prog = ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	// dependencies first (order is post-order), packages without bodies included
	for _, path := range l.order {
		p := l.pkgs[path]
		if l.infos[path] != nil {
			l.ssaPkgs[path] = l.prog.CreatePackage(p, l.files[path], l.infos[path], true)
		} else {
			l.ssaPkgs[path] = l.prog.CreatePackage(p, nil, nil, true)
		}
	}
	l.prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, path := range l.order {
		l.ssaPkgs[path].Build()
	}
	return nil
}

func (l *Loader) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pos() == token.NoPos {
		return false
	}
	return strings.HasPrefix(l.fset.Position(fn.Pos()).Filename, l.specDir)
}

// isOwn: a function of the code under verification.
func (l *Loader) isOwn(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !strings.Contains(fn.Pkg.Pkg.Path(), "/vendor/") && !l.isSpec(fn)
}
