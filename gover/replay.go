package main

// Native replay: the harnesses compiled together with the real code, driven by a tape.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Native struct {
	dir string // scratch GOPATH
	bin string
	err error
}

// NativeResult is the outcome of one native run of a harness.
type NativeResult struct {
	Unit     string
	Seed     int64
	Failed   []string
	Panicked string
	Skipped  bool
	Symbolic bool // the harness uses vocabulary that has no native meaning
	Log      []TapeRec
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	return os.WriteFile(dst, b, 0644)
}

// buildNative copies the non-test sources of the repository and the contract files to a scratch
// GOPATH and compiles a runner.
func buildNative(l *Loader, units []*Unit, scratch, gocache string) *Native {
	n := &Native{dir: scratch}
	n.err = func() error {
		root := filepath.Join(scratch, "src", modPath)
		dropped := map[string]bool{}
		for _, d := range l.dropped {
			dropped[strings.SplitN(d, ":", 2)[0]] = true
		}
		var withUnits []string
		for path := range l.infos {
			var dst string
			switch {
			case path == modPath:
				dst = root
			case strings.HasPrefix(path, modPath+"/"):
				dst = filepath.Join(root, path[len(modPath)+1:])
			default:
				continue
			}
			if err := os.MkdirAll(dst, 0755); err != nil {
				return err
			}
			dir, _ := l.dirOf(path)
			bp, err := l.ctx.ImportDir(dir, 0)
			if err != nil {
				return err
			}
			for _, f := range bp.GoFiles {
				if err := copyFile(filepath.Join(dst, f), filepath.Join(dir, f)); err != nil {
					return err
				}
			}
			for _, f := range l.specFilesFor(path) {
				if !dropped[f] {
					if err := copyFile(filepath.Join(dst, "zz_spec_"+filepath.Base(f)), f); err != nil {
						return err
					}
				}
			}
			var names []string
			for _, u := range units {
				if !u.contr && u.fn.Package().Pkg.Path() == path {
					names = append(names, u.name)
				}
			}
			if len(names) > 0 {
				sort.Strings(names)
				var sb strings.Builder
				fmt.Fprintf(&sb, "package %s\n\nvar ZZUnits = map[string]func(){\n", bp.Name)
				for _, u := range names {
					fmt.Fprintf(&sb, "\t%q: %s,\n", u, u)
				}
				sb.WriteString("}\n")
				if err := os.WriteFile(filepath.Join(dst, "zz_units.go"), []byte(sb.String()), 0644); err != nil {
					return err
				}
				withUnits = append(withUnits, path)
			}
		}
		os.RemoveAll(filepath.Join(root, "vendor"))
		if err := os.Symlink(filepath.Join(l.repo, "vendor"), filepath.Join(root, "vendor")); err != nil {
			return err
		}
		sort.Strings(withUnits)
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n")
		for i, p := range withUnits {
			fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
		}
		fmt.Fprintf(&sb, "\t%q\n)\n\nfunc main() {\n\tvrt.Main(", vrtPath)
		for i := range withUnits {
			fmt.Fprintf(&sb, "p%d.ZZUnits, ", i)
		}
		sb.WriteString(")\n}\n")
		os.MkdirAll(filepath.Join(root, "zzreplay"), 0755)
		if err := os.WriteFile(filepath.Join(root, "zzreplay", "main.go"), []byte(sb.String()), 0644); err != nil {
			return err
		}
		n.bin = filepath.Join(scratch, "zzreplay.bin")
		c := exec.Command(filepath.Join(l.ctx.GOROOT, "bin", "go"), "build", "-o", n.bin, modPath+"/zzreplay")
		c.Dir = root
		c.Env = append(cleanEnv(), "GO111MODULE=off", "GOPATH="+scratch, "GOCACHE="+gocache, "CGO_ENABLED=0", "GOFLAGS=", "GOENV=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "HOME="+scratch)
		out, err := c.CombinedOutput()
		if err != nil {
			return fmt.Errorf("native build: %v: %s", err, out)
		}
		return nil
	}()
	return n
}

func cleanEnv() []string {
	var out []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		if strings.HasPrefix(k, "GO") || k == "HOME" {
			continue
		}
		out = append(out, e)
	}
	return out
}

func (n *Native) run(timeout time.Duration, args ...string) ([]NativeResult, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, n.bin, args...)
	work, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(work)
	c.Dir = work
	c.Env = append(cleanEnv(), "VRT_SCRATCH="+work, "HOME="+work, "TMPDIR="+work)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err = c.Run()
	var res []NativeResult
	for _, line := range strings.Split(so.String(), "\n") {
		if !strings.HasPrefix(line, "@@ ") {
			continue
		}
		var r NativeResult
		if json.Unmarshal([]byte(line[3:]), &r) == nil {
			res = append(res, r)
		}
	}
	if ctx.Err() != nil {
		return res, se.String(), ctx.Err()
	}
	if err != nil && strings.Contains(se.String(), "panic: ") || strings.Contains(se.String(), "fatal error: ") {
		// a panic in another goroutine, or a runtime fault, ends the process
		msg := se.String()
		if i := strings.Index(msg, "panic: "); i >= 0 {
			msg = msg[i:]
		}
		if len(msg) > 600 {
			msg = msg[:600]
		}
		r := NativeResult{Panicked: msg}
		if i := strings.LastIndex(so.String(), "@@start "); i >= 0 {
			fmt.Sscanf(so.String()[i:], "@@start %s %d", &r.Unit, &r.Seed)
		}
		res = append(res, r)
		err = nil
	}
	return res, se.String(), err
}

// tape replays one tape.
func (n *Native) tape(unit string, tape []TapeRec) (*NativeResult, error) {
	f, err := os.CreateTemp(n.dir, "tape*.json")
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(tape)
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	rs, _, err := n.run(30*time.Second, "-unit", unit, "-tape", f.Name())
	if len(rs) == 0 {
		if err == nil {
			err = fmt.Errorf("no native result")
		}
		return nil, err
	}
	return &rs[len(rs)-1], nil
}

// random runs a harness natively with pseudo-random tapes; failing and final results come back.
func (n *Native) random(unit string, runs int, seed int64, budget time.Duration) ([]NativeResult, error) {
	rs, _, err := n.run(budget+15*time.Second, "-unit", unit, "-random", fmt.Sprint(runs), "-seed", fmt.Sprint(seed), "-budget", budget.String())
	return rs, err
}
