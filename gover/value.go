package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val interface{}

// scalars (ints, bools, strings (ids), opaque refs) are *Term.

type Loc struct {
	key  string // heap key of the pointed-to cell (type or field path)
	a    *Term  // object
	i    *Term  // element index or nil
	snap *Heap  // read from this snapshot instead of the current heap
}

type PtrV struct {
	loc  Loc
	nilT *Term // condition under which the pointer is nil (nil: loc.a == 0)
	prov *Prov
}

// Prov records the field a reference was loaded from.
type Prov struct {
	key string
	a   *Term
}

type SliceV struct {
	mkey               string // element memory key
	arr, off, len, cap *Term
	snap               *Heap
	prov               *Prov
}

type StructV struct {
	t  types.Type
	fs []Val
}

type ArrayV struct {
	t  types.Type
	es []Val
}

type IfaceV struct {
	tag *Term // 0 for nil
	typ types.Type
	val Val // concrete value when typ != nil; else *Term opaque data
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	t    *Term // opaque identity (when fn == nil)
	prov *Prov
	blt  string // builtin / intrinsic bound method
}

type RefV struct { // map or channel reference
	t    *Term
	prov *Prov
	snap *Heap
}

type TupleV struct{ vs []Val }

type NextV struct{ ok, key, val Val }

type RangeV struct {
	mp   *RefV
	typ  *types.Map
	str  *Term
	iter *Term // identity
	h0   *Heap
}

// ---- type helpers ----

var (
	bigs  = map[int]*big.Int{}
	maxSz = new(big.Int).Lsh(bigOne, 40)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	bt, isB := t.Underlying().(*types.Basic)
	if !isB || bt.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch bt.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func intRange(t types.Type) (lo, hi *big.Int) {
	bits, signed, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne)
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), bigOne)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

const modPath = "github.com/qbeon/webwire-go"

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		return p.Path()
	})
	s = strings.ReplaceAll(s, modPath+"/vendor/", "")
	s = strings.ReplaceAll(s, modPath+"/", "ww/")
	s = strings.ReplaceAll(s, modPath, "ww")
	s = aliasName.ReplaceAllStringFunc(s, func(m string) string {
		if m == "byte" {
			return "uint8"
		}
		return "int32"
	})
	return s
}

var aliasName = regexp.MustCompile(`\b(byte|rune)\b`)

func fieldKey(st types.Type, i int) string {
	return st.Underlying().(*types.Struct).Field(i).Name()
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// leafTypes decides whether a type is stored as one heap leaf.
func isLeaf(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (v *PtrV) String() string {
	s := v.loc.key + "@" + v.loc.a.String()
	if v.loc.i != nil {
		s += "[" + v.loc.i.String() + "]"
	}
	return s
}

func valString(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.String()
	case *PtrV:
		return x.String()
	case *SliceV:
		return fmt.Sprintf("slice{%s arr=%v off=%v len=%v}", x.mkey, x.arr, x.off, x.len)
	case *StructV:
		var p []string
		for _, f := range x.fs {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, "; ") + "}"
	case *IfaceV:
		return fmt.Sprintf("iface(%v,%v)", x.tag, valString(x.val))
	case *RefV:
		return x.t.String()
	case *FuncV:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func?" + fmt.Sprint(x.t) + x.blt
	case *TupleV:
		var p []string
		for _, f := range x.vs {
			p = append(p, valString(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
