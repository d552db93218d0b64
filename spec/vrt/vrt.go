// Package vrt is the specification vocabulary of the contract files in /verif/spec.
//
// The verifier (gover) interprets these functions symbolically. The bodies below give them an
// executable meaning, used to replay counterexamples against the real code: nondeterministic
// values come from a tape, assertions that fail are recorded.
package vrt

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

// Rec is one tape entry.
type Rec struct {
	Kind string
	Name string
	I    string // integers, booleans (0/1)
	B    []byte // byte sequences and strings
}

type state struct {
	tape   []Rec
	pos    int
	rnd    *rand.Rand
	Failed []string
	log    []Rec
	covers []string
	scans  []scan

	strs    [][]byte // the random strings so far
	scratch []string
}

var cur = &state{}

type assumeFailed struct{}

var opaque = errors.New("vrt: opaque error")

type symbolicOnly struct{}

// symbolic ends a native run: the harness uses a construct only the verifier interprets.
func symbolic() { panic(symbolicOnly{}) }

// Result is the outcome of one native run.
type Result struct {
	Unit     string
	Seed     int64
	Failed   []string
	Panicked string
	Skipped  bool
	Symbolic bool
	Covers   []string
	Log      []Rec
}

// Run executes a harness natively with the given tape; it reports failed assertions, whether an
// assumption failed, and a panic message.
func Run(f func(), tape []Rec, seed int64) (r Result) {
	st := &state{tape: tape}
	cur = st
	if seed != 0 {
		st.rnd = rand.New(rand.NewSource(seed))
	}
	type end struct {
		skipped, symbolic bool
		panicked          string
	}
	done := make(chan end, 1)
	go func() {
		var e end
		defer func() {
			switch p := recover().(type) {
			case nil:
			case assumeFailed:
				e.skipped = true
			case symbolicOnly:
				e.symbolic = true
			default:
				e.panicked = fmt.Sprint(p)
			}
			LimitWrites(-1)
			for _, d := range st.scratch {
				if strings.Contains(d, "/vrt-scratch-") {
					os.RemoveAll(d)
				}
			}
			done <- e
		}()
		f()
	}()
	select {
	case e := <-done:
		r.Skipped, r.Symbolic, r.Panicked = e.skipped, e.symbolic, e.panicked
	case <-time.After(10 * time.Second):
		r.Panicked = "blocked: the harness did not finish within 10 s"
	}
	r.Failed, r.Log, r.Seed, r.Covers = st.Failed, st.log, seed, st.covers
	return r
}

// Main is the entry point of the native runner.
func Main(sets ...map[string]func()) {
	unit := flag.String("unit", "", "")
	tape := flag.String("tape", "", "")
	random := flag.Int("random", 0, "")
	seed := flag.Int64("seed", 1, "")
	budget := flag.Duration("budget", 10*time.Second, "")
	flag.Parse()
	var f func()
	for _, s := range sets {
		if g := s[*unit]; g != nil {
			f = g
		}
	}
	if f == nil {
		fmt.Println("no such unit")
		os.Exit(2)
	}
	emit := func(r Result) {
		r.Unit = *unit
		b, _ := json.Marshal(r)
		fmt.Printf("@@ %s\n", b)
	}
	if *random == 0 {
		t, err := LoadTape(*tape)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		emit(Run(f, t, 0))
		return
	}
	t0 := time.Now()
	ran, skipped, bad := 0, 0, 0
	covers := map[string]bool{}
	for i := 0; i < *random && time.Since(t0) < *budget; i++ {
		s := *seed*1000003 + int64(i) + 1
		fmt.Printf("@@start %s %d\n", *unit, s)
		r := Run(f, nil, s)
		for _, c := range r.Covers {
			covers[c] = true
		}
		if r.Symbolic {
			emit(r)
			return
		}
		if r.Skipped {
			skipped++
			continue
		}
		ran++
		if len(r.Failed) > 0 || r.Panicked != "" {
			emit(r)
			if bad++; bad >= 5 || r.Panicked != "" {
				break
			}
		}
	}
	var cs []string
	for c := range covers {
		cs = append(cs, c)
	}
	b, _ := json.Marshal(map[string]any{"ran": ran, "skipped": skipped, "covers": cs})
	fmt.Printf("@@sum %s\n", b)
}

// LoadTape reads a tape file.
func LoadTape(path string) ([]Rec, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var t []Rec
	err = json.Unmarshal(b, &t)
	return t, err
}

func next(kind, name string) (Rec, bool) {
	for i := cur.pos; i < len(cur.tape); i++ {
		if r := cur.tape[i]; r.Kind == kind && r.Name == name {
			cur.pos = i + 1
			return r, true
		}
	}
	return Rec{}, false
}

func note(kind, name string, i int64, b []byte) {
	cur.log = append(cur.log, Rec{kind, name, fmt.Sprint(i), b})
}

func num(kind, name string, lo, hi int64) int64 {
	r, ok := next(kind, name)
	var v int64
	if ok {
		var u uint64
		if _, err := fmt.Sscan(r.I, &v); err != nil {
			fmt.Sscan(r.I, &u)
			v = int64(u)
		}
	} else if cur.rnd != nil {
		switch cur.rnd.Intn(4) {
		case 0:
			v = lo
		case 1:
			v = hi
		default:
			if d := hi - lo; d >= 0 && d < 1<<62 {
				v = lo + cur.rnd.Int63n(d+1)
			} else {
				v = int64(cur.rnd.Uint64())
			}
		}
	} else {
		v = lo
		if lo < 0 && hi >= 0 {
			v = 0
		}
	}
	note(kind, name, v, nil)
	return v
}

func Bool(name string) bool           { return num("Bool", name, 0, 1) != 0 }
func Byte(name string) byte           { return byte(num("Byte", name, 0, 255)) }
func U16(name string) uint16          { return uint16(num("U16", name, 0, 65535)) }
func U32(name string) uint32          { return uint32(num("U32", name, 0, 1<<32-1)) }
func U64(name string) uint64          { return uint64(num("U64", name, -1<<63, 1<<63-1)) }
func I64(name string) int64           { return num("I64", name, -1<<63, 1<<63-1) }
func Dur(name string) time.Duration   { return time.Duration(num("Dur", name, -1<<63, 1<<63-1)) }
func Int(name string, lo, hi int) int { return int(num("Int", name, int64(lo), int64(hi))) }

func seq(kind, name string) []byte {
	r, ok := next(kind, name)
	var b []byte
	if ok {
		b = append([]byte{}, r.B...)
	} else if cur.rnd != nil {
		n := cur.rnd.Intn(24)
		switch cur.rnd.Intn(8) {
		case 0:
			n = 0
		case 1:
			n = 250 + cur.rnd.Intn(10)
		}
		b = make([]byte, n)
		special := cur.rnd.Intn(5) == 0
		for i := range b {
			if special {
				b[i] = "\x00\x01\x20\x7f\x80\xbf\xd8\xdb\xdc\xdf\xef\xff./\\A*?["[cur.rnd.Intn(19)]
			} else if cur.rnd.Intn(6) == 0 {
				b[i] = byte(cur.rnd.Intn(256))
			} else {
				b[i] = byte(32 + cur.rnd.Intn(95))
			}
		}
		if kind == "String" {
			b = related(b)
			cur.strs = append(cur.strs, b)
		}
	} else {
		b = []byte{}
	}
	note(kind, name, 0, b)
	return append(make([]byte, 0, len(b)), b...)
}

// related makes some random strings resemble earlier ones, or patterns.
func related(b []byte) []byte {
	if len(cur.strs) > 0 && cur.rnd.Intn(3) == 0 {
		b = append([]byte{}, cur.strs[cur.rnd.Intn(len(cur.strs))]...)
		i := cur.rnd.Intn(len(b) + 1)
		switch cur.rnd.Intn(5) {
		case 0:
			b = append(b, "x0. _"[cur.rnd.Intn(5)])
		case 1:
			b = append(b[:i:i], append([]byte("ab"), b[i:]...)...)
		case 2:
			b = b[:i]
		case 3:
			b = bytes.ToUpper(b)
		}
	}
	if cur.rnd.Intn(10) == 0 {
		b = append(b, "*?"[cur.rnd.Intn(2)])
	}
	return b
}

// Bytes is an arbitrary non-nil byte slice.
func Bytes(name string) []byte { return seq("Bytes", name) }

// String is an arbitrary string.
func String(name string) string { return string(seq("String", name)) }

// Bytes8 is an arbitrary array.
func Bytes8(name string) [8]byte {
	var a [8]byte
	copy(a[:], seq("Bytes8", name))
	return a
}

// Err is nil or an arbitrary error of an unknown type.
func Err(name string) error {
	if num("Err", name, 0, 1) != 0 {
		return opaque
	}
	return nil
}

// Any is an arbitrary value.
func Any[T any](name string) T { symbolic(); var z T; return z }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Requires(c bool) { Assume(c) }
func Assert(label string, c bool) {
	if !c {
		cur.Failed = append(cur.Failed, label)
	}
}
func Ensures(label string, c bool) { Assert(label, c) }
func Modifies(what ...any)         {}
func Cover(label string)           { cur.covers = append(cur.covers, label) }
func Expect(label string)          {}
func Step(label string)            {}
func PanicProp(p string)           {}

// Contract declares that function f satisfies the contract function c.
func Contract(f, c any) bool { return true }

// Boundary registers a contract that callers in other packages use; callers in f's package use its body.
func Boundary(f, c any) bool { return true }

// Stub declares that external function f behaves as model m does, where UseStubs was called.
func Stub(f, m any) bool { return true }
func UseStubs()          {}

// Unmodelled marks uses of an external function its model does not cover.
func Unmodelled() {}

// Native is false where the verifier interprets the code.
func Native() bool { return true }

// ScratchDir is an empty directory, removed after the run, some levels below another scratch directory.
func ScratchDir() string {
	top, err := os.MkdirTemp("", "vrt-scratch-")
	if err != nil {
		panic(err)
	}
	cur.scratch = append(cur.scratch, top)
	d := top + "/a/b/c/d/e/f/g/h/i/j/k/l"
	if err := os.MkdirAll(d, 0o700); err != nil {
		panic(err)
	}
	return d
}

// LimitWrites makes writes to files fail after n bytes; with n < 0 no more.
func LimitWrites(n int) {
	var r syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
	r.Cur = r.Max
	if n >= 0 {
		r.Cur = uint64(n)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r)
}

// Forall states f(i) for lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ScanStep is one step of a left-to-right scan: the next position and up to four bytes of output.
type ScanStep struct{ Next, N, B0, B1, B2, B3 int }

type scan struct {
	n    int
	step func(i int) ScanStep
}

// Scan defines a text: what the steps from 0 until n is reached put out, one after the other.
func Scan(n int, step func(i int) ScanStep) int {
	cur.scans = append(cur.scans, scan{n, step})
	return len(cur.scans)
}

// ScanIs states that s is the text of the scan.
func ScanIs(h int, s []byte) bool {
	var out []byte
	sc := cur.scans[h-1]
	for i := 0; i < sc.n; {
		t := sc.step(i)
		out = append(out, []byte{byte(t.B0), byte(t.B1), byte(t.B2), byte(t.B3)}[:t.N]...)
		i = t.Next
	}
	return bytes.Equal(out, s)
}

func utf16Unit(d []byte, i int) int { return int(d[i]) + 256*int(d[i+1]) }

// Utf16Step is the step of the conversion at byte i of little-endian UTF-16 data: the UTF-8 encoding
// of the code point there. A high surrogate directly followed by a low one is a pair, any other
// surrogate is replaced by U+FFFD.
func Utf16Step(d []byte, n, i int) ScanStep {
	u := utf16Unit(d, i)
	if u < 0xd800 || u >= 0xe000 {
		return utf8Bytes(u, i+2)
	}
	if u < 0xdc00 && i+3 < n {
		if l := utf16Unit(d, i+2); 0xdc00 <= l && l < 0xe000 {
			return utf8Bytes(0x10000+(u-0xd800)*1024+(l-0xdc00), i+4)
		}
	}
	return ScanStep{Next: i + 2, N: 3, B0: 0xef, B1: 0xbf, B2: 0xbd}
}

func utf8Bytes(c, next int) ScanStep {
	switch {
	case c < 0x80:
		return ScanStep{Next: next, N: 1, B0: c}
	case c < 0x800:
		return ScanStep{Next: next, N: 2, B0: 0xc0 + c/64, B1: 0x80 + c%64}
	case c < 0x10000:
		return ScanStep{Next: next, N: 3, B0: 0xe0 + c/4096, B1: 0x80 + c/64%64, B2: 0x80 + c%64}
	}
	return ScanStep{Next: next, N: 4, B0: 0xf0 + c/262144, B1: 0x80 + c/4096%64, B2: 0x80 + c/64%64, B3: 0x80 + c%64}
}

// ForallKeys states f(k) for every key (natively: every key of the two maps).
func ForallKeys[K comparable, V, W any](a map[K]V, b map[K]W, f func(k K) bool) bool {
	for k := range a {
		if !f(k) {
			return false
		}
	}
	for k := range b {
		if !f(k) {
			return false
		}
	}
	return true
}

// ForallRefs states f(p) for every object.
func ForallRefs[T any](f func(p *T) bool) bool { symbolic(); return true }
func InstRef[T any](p *T)                      {}
func InstKey[K comparable](k K)                {}
func Inst(i int)                               {}

func Share(x any)        { symbolic() }
func Sequential(on bool) {}
func AllowBlock(on bool) {}
func BlockProp(p string) {}
func GoRecord(on bool) {
	if on {
		symbolic()
	}
}
func Spawned() int { symbolic(); return 0 }
func Closes() int  { symbolic(); return 0 }

// Old is x as seen in the snapshot that view belongs to.
func Old[P, T any](view P, x T) T { return x }

// Entry and Exit are x as it was at the beginning and end of the last critical section under the mutex.
func Entry[T any](mutex any, x T) T { symbolic(); return x }
func Exit[T any](mutex any, x T) T  { symbolic(); return x }

// Own is this thread's share of what the mutex guards, as counted by vown_.
func Own(mutex any) int        { symbolic(); return 0 }
func SetOwn(mutex any, n int)  { symbolic() }
func HoldsLock(mutex any) bool { symbolic(); return false }

// JSONIs: b is the JSON encoding of a value for which f holds.
func JSONIs[T any](b []byte, f func(v T) bool) bool {
	var v T
	return json.Unmarshal(b, &v) == nil && f(v)
}

// ValidText: s survives the encoding as JSON text (the verifier's JSON encoding is faithful).
func ValidText(s string) bool { return utf8.ValidString(s) }

func Sent() int                { symbolic(); return 0 }
func LocksHeld() int           { return 0 }
func RunSpawned()              { time.Sleep(20 * time.Millisecond) }
func PoolPuts() int            { symbolic(); return 0 }
func PoolLast(x any) bool      { symbolic(); return true }
func SemHeld(s any) int64      { return reflect.ValueOf(s).Elem().FieldByName("cur").Int() }
func SemSize(s any) int64      { return reflect.ValueOf(s).Elem().FieldByName("size").Int() }
func JSONFails(on bool)        {}
func Unroll(n int)             {}
func Pause()                   { time.Sleep(10 * time.Millisecond) } // another goroutine gets ahead
func LastJSON() []byte         { symbolic(); return nil }
func Havoc(p any)              { symbolic() }
func IsType[T any](x any) bool { _, ok := x.(T); return ok }

func SameRef(a, b any) bool { return a == b }

// Fn1 … Pred2 are uninterpreted functions.
func Fn1(name string, a int) int       { symbolic(); return 0 }
func Fn2(name string, a, b int) int    { symbolic(); return 0 }
func Pred1(name string, a int) bool    { symbolic(); return true }
func Pred2(name string, a, b int) bool { symbolic(); return true }

// RV is a reflect.Value as the models of package reflect see it: type, contents and role.
func RV(typ, id, role int) reflect.Value { symbolic(); return reflect.Value{} }
func RVTyp(v reflect.Value) int          { symbolic(); return 0 }
func RVId(v reflect.Value) int           { symbolic(); return 0 }
func RVRole(v reflect.Value) int         { symbolic(); return 0 }
func RefOf[T any](p *T) int              { symbolic(); return 0 }
func AtRef[T any](i int) *T              { symbolic(); return nil }
func SameSlice(a, b []byte) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}
func Inside(s, b []byte) bool {
	if len(s) == 0 {
		return true
	}
	if len(b) == 0 {
		return false
	}
	p, q := uintptr(unsafe.Pointer(&s[0])), uintptr(unsafe.Pointer(&b[0]))
	return p >= q && p+uintptr(len(s)) <= q+uintptr(len(b))
}
func Offset(s, b []byte) int {
	if cap(s) == 0 || cap(b) == 0 {
		return 0
	}
	return int(uintptr(unsafe.Pointer(&s[:1][0])) - uintptr(unsafe.Pointer(&b[:1][0])))
}
func NilBytes(b []byte) bool   { return b == nil }
func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }
func ChanClosed(c any) bool {
	v := reflect.ValueOf(c)
	if v.Len() > 0 {
		return false // not known; nothing is taken out
	}
	x, ok := v.TryRecv()
	return x.IsValid() && !ok
}
func ChanCap(c any) int { return reflect.ValueOf(c).Cap() }
func ChanLen(c any) int { return reflect.ValueOf(c).Len() }

// Snap is a copy of the state reachable from x (to the depth the specifications need).
func Snap[T any](x T) T {
	v := reflect.ValueOf(&x).Elem()
	return deep(v, 0).Interface().(T)
}

func deep(v reflect.Value, d int) reflect.Value {
	if d > 6 {
		return v
	}
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deep(v.MapIndex(k), d+1))
		}
		return n
	case reflect.Ptr:
		if v.IsNil() || v.Elem().Kind() != reflect.Struct {
			return v
		}
		n := reflect.New(v.Elem().Type())
		n.Elem().Set(v.Elem())
		for i := 0; i < n.Elem().NumField(); i++ {
			f := n.Elem().Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			switch f.Kind() {
			case reflect.Slice, reflect.Map:
				f.Set(deep(f, d+1))
			case reflect.Struct:
				for j := 0; j < f.NumField(); j++ {
					g := f.Field(j)
					g = reflect.NewAt(g.Type(), unsafe.Pointer(g.UnsafeAddr())).Elem()
					if g.Kind() == reflect.Slice {
						g.Set(deep(g, d+1))
					}
				}
			}
		}
		return n
	}
	return v
}
