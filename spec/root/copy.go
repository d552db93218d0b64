package webwire

// Contracts of the deep copies of session info objects (C22).
//
// Values are numbers: a value of the original has an id > 0, its parts are functions of it (specItem,
// specElem, …) and its type is a number too. What the code writes goes to ghost variables (specCell).
// A composite value that is written is checked at one arbitrary position (vat): position by position
// is for all positions. Copying a part is the induction hypothesis: copyRecursive of a part is assumed
// to satisfy the contract proved for the whole (values are finite trees).

import (
	"reflect"

	"github.com/qbeon/webwire-go/vrt"
)

// ---- types ----

func specKindOf(t int) int    { return vrt.Fn1("kind", t) }
func specElemType(t int) int  { return vrt.Fn1("elemtype", t) }
func specKeyType(t int) int   { return vrt.Fn1("keytype", t) }
func specArrayLen(t int) int  { return vrt.Fn1("arraylen", t) }
func specNumFields(t int) int { return vrt.Fn1("fields", t) }

func specFieldType(t, i int) int   { return vrt.Fn2("fieldtype", t, i) }
func specExported(t, i int) bool   { return vrt.Pred2("exported", t, i) }
func specIsKind(t, k int) bool     { return specKindOf(t) == k }
func specImplements(d, t int) bool { return vrt.Pred2("implements", d, t) }

const (
	specArray  = int(reflect.Array)
	specIface  = int(reflect.Interface)
	specMap    = int(reflect.Map)
	specSlice  = int(reflect.Slice)
	specStruct = int(reflect.Struct)
)

// specPlain: values of the type have no parts that can be copied (pointers, channels and functions are shared).
func specPlain(t int) bool {
	k := specKindOf(t)
	return k != specArray && k != specIface && k != specMap && k != specSlice && k != specStruct
}

// ---- values of the original ----

func specTypeOf(v int) int    { return vrt.Fn1("type", v) }
func specIsNil(v int) bool    { return vrt.Pred1("nil", v) }
func specLen(v int) int       { return vrt.Fn1("len", v) }
func specCap(v int) int       { return vrt.Fn1("cap", v) }
func specElem(v int) int      { return vrt.Fn1("elem", v) }
func specItem(v, i int) int   { return vrt.Fn2("item", v, i) }
func specKey(v, i int) int    { return vrt.Fn2("key", v, i) }
func specAt(v, k int) int     { return vrt.Fn2("at", v, k) }
func specKeyOf(v, k int) bool { return vrt.Pred2("haskey", v, k) }
func specCopyOf(d int) int    { return vrt.Fn1("copyof", d) }

// specDeep: d is a deep copy of value s of the original.
func specDeep(d, s int) bool {
	return specCopyOf(d) == s && d >= specCopies ||
		d == s && specPlain(specTypeOf(s)) ||
		(d == s || d == 0) && specIsNil(s)
}

// specCopies: ids from here on are deep copies.
const specCopies = 1 << 40

// specPart introduces a part of the original.
func specPart(v, typ int) int {
	vrt.Assume(v > 0 && v < specCopies && specTypeOf(v) == typ)
	return v
}

// ---- variables ----

type specCell struct {
	typ   int
	val   int  // contents: 0 zero value, > 0 a value, < 0 the composite value made by the code
	ro    bool // unexported field
	n     int
	owner *specCell
	idx   int
	// position of interest
	vat  int
	want int  // value of the original at this position
	vnew bool // nothing was written there
	vhit bool // it holds a deep copy of want
	// maps
	of  int  // the original
	odd bool // has a key the original doesn't have
	box int  // contents of an interface variable
}

// specRoot is the value to be copied, specW the position of interest.
type specRoot struct{ v, w, want int }

var specCopied *specRoot

func specNewCell(t int) *specCell {
	return &specCell{typ: t, vnew: true, vat: specCopied.w, want: specCopied.want, of: specCopied.v}
}

const (
	roleNone = iota
	roleValue
	roleHidden // obtained through an unexported field
	roleCell
	rolePtr
	roleRoot // the value to be copied itself
)

func specRV(t, id, role int) reflect.Value { return vrt.RV(t, id, role) }

func specCellOf(v reflect.Value) *specCell { return vrt.AtRef[specCell](vrt.RVId(v)) }

func specIsCell(v reflect.Value) bool { return vrt.RVRole(v) == roleCell }

// specContents of a value or variable.
func specContents(v reflect.Value) int {
	vrt.Assert("C22.no-panic", vrt.RVRole(v) != roleNone && vrt.RVRole(v) != rolePtr)
	if specIsCell(v) {
		return specCellOf(v).val
	}
	return vrt.RVId(v)
}

func (c *specCell) set(val int) {
	c.val, c.vnew, c.vhit = val, true, false
	if o := c.owner; o != nil && c.idx == o.vat {
		o.vnew, o.vhit = false, specDeep(val, o.want)
	}
}

// ---- package reflect ----

var _ = vrt.Stub(reflect.ValueOf, specValueOf)
var _ = vrt.Stub(reflect.New, specNew)
var _ = vrt.Stub(reflect.Zero, specZero)
var _ = vrt.Stub(reflect.MakeSlice, specMakeSlice)
var _ = vrt.Stub(reflect.MakeMap, specMakeMap)
var _ = vrt.Stub(reflect.MakeMapWithSize, specMakeMapWithSize)
var _ = vrt.Stub(reflect.Value.Kind, specVKind)
var _ = vrt.Stub(reflect.Value.Type, specVType)
var _ = vrt.Stub(reflect.Value.IsValid, specVIsValid)
var _ = vrt.Stub(reflect.Value.IsNil, specVIsNil)
var _ = vrt.Stub(reflect.Value.CanSet, specVCanSet)
var _ = vrt.Stub(reflect.Value.CanInterface, specVCanInterface)
var _ = vrt.Stub(reflect.Value.Elem, specVElem)
var _ = vrt.Stub(reflect.Value.Len, specVLen)
var _ = vrt.Stub(reflect.Value.Cap, specVCap)
var _ = vrt.Stub(reflect.Value.Index, specVIndex)
var _ = vrt.Stub(reflect.Value.NumField, specVNumField)
var _ = vrt.Stub(reflect.Value.Field, specVField)
var _ = vrt.Stub(reflect.Value.MapKeys, specVMapKeys)
var _ = vrt.Stub(reflect.Value.MapIndex, specVMapIndex)
var _ = vrt.Stub(reflect.Value.SetMapIndex, specVSetMapIndex)
var _ = vrt.Stub(reflect.Value.Set, specVSet)
var _ = vrt.Stub(reflect.Value.Interface, specVInterface)

// specType is a reflect.Type.
type specType struct {
	reflect.Type
	id int
}

func (t *specType) Kind() reflect.Kind { return reflect.Kind(specKindOf(t.id)) }
func (t *specType) Elem() reflect.Type {
	k := specKindOf(t.id)
	vrt.Assert("C22.no-panic", k == specArray || k == specMap || k == specSlice || k == int(reflect.Ptr) || k == int(reflect.Chan))
	return &specType{id: specElemType(t.id)}
}
func (t *specType) Key() reflect.Type {
	vrt.Assert("C22.no-panic", specIsKind(t.id, specMap))
	return &specType{id: specKeyType(t.id)}
}
func (t *specType) Len() int {
	vrt.Assert("C22.no-panic", specIsKind(t.id, specArray))
	return specArrayLen(t.id)
}
func (t *specType) NumField() int {
	vrt.Assert("C22.no-panic", specIsKind(t.id, specStruct))
	return specNumFields(t.id)
}
func (t *specType) Field(i int) (f reflect.StructField) { vrt.Unmodelled(); return }
func (t *specType) Name() string                        { vrt.Unmodelled(); return "" }
func (t *specType) String() string                      { vrt.Unmodelled(); return "" }
func (t *specType) PkgPath() string                     { vrt.Unmodelled(); return "" }
func (t *specType) Size() uintptr                       { vrt.Unmodelled(); return 0 }
func (t *specType) NumMethod() int                      { vrt.Unmodelled(); return 0 }
func (t *specType) Comparable() bool                    { vrt.Unmodelled(); return false }
func (t *specType) AssignableTo(reflect.Type) bool      { vrt.Unmodelled(); return false }
func (t *specType) ConvertibleTo(reflect.Type) bool     { vrt.Unmodelled(); return false }
func (t *specType) Implements(reflect.Type) bool        { vrt.Unmodelled(); return false }
func (t *specType) FieldByName(string) (reflect.StructField, bool) {
	vrt.Unmodelled()
	return reflect.StructField{}, false
}

// specBox is an interface value with contents v.
type specBox struct{ typ, v int }

func specValueOf(x interface{}) reflect.Value {
	if x == nil {
		return specRV(0, 0, roleNone)
	}
	b, ok := x.(*specBox)
	if !ok {
		vrt.Unmodelled()
	}
	return specRV(b.typ, b.v, roleValue)
}

func specNew(t reflect.Type) reflect.Value {
	vrt.Assert("C22.no-panic", t != nil)
	id := t.(*specType).id
	return specRV(id, vrt.RefOf(specNewCell(id)), rolePtr)
}

func specZero(t reflect.Type) reflect.Value {
	vrt.Assert("C22.no-panic", t != nil)
	return specRV(t.(*specType).id, 0, roleValue)
}

func specMakeSlice(t reflect.Type, n, max int) reflect.Value {
	vrt.Assert("C22.no-panic", t != nil)
	id := t.(*specType).id
	vrt.Assert("C22.no-panic", specIsKind(id, specSlice) && 0 <= n && n <= max)
	c := specNewCell(id)
	c.n = n
	return specRV(id, vrt.RefOf(c), roleValue)
}

func specMakeMap(t reflect.Type) reflect.Value {
	vrt.Assert("C22.no-panic", t != nil)
	id := t.(*specType).id
	vrt.Assert("C22.no-panic", specIsKind(id, specMap))
	return specRV(id, vrt.RefOf(specNewCell(id)), roleValue)
}

func specMakeMapWithSize(t reflect.Type, n int) reflect.Value {
	return specMakeMap(t)
}

func specVKind(v reflect.Value) reflect.Kind {
	if vrt.RVRole(v) == roleNone {
		return reflect.Invalid
	}
	if vrt.RVRole(v) == rolePtr {
		return reflect.Ptr
	}
	return reflect.Kind(specKindOf(vrt.RVTyp(v)))
}

func specVType(v reflect.Value) reflect.Type {
	vrt.Assert("C22.no-panic", vrt.RVRole(v) != roleNone)
	if vrt.RVRole(v) == rolePtr {
		vrt.Unmodelled()
	}
	return &specType{id: vrt.RVTyp(v)}
}

func specVIsValid(v reflect.Value) bool { return vrt.RVRole(v) != roleNone }

func specNilContents(x int) bool { return x == 0 || x > 0 && specIsNil(x) }

func specVIsNil(v reflect.Value) bool {
	if vrt.RVRole(v) == rolePtr {
		return false
	}
	x := specContents(v)
	k := specKindOf(vrt.RVTyp(v))
	vrt.Assert("C22.no-panic", k == specIface || k == specMap || k == specSlice || k == int(reflect.Ptr) || k == int(reflect.Chan) || k == int(reflect.Func) || k == int(reflect.UnsafePointer))
	return specNilContents(x)
}

func specVCanSet(v reflect.Value) bool {
	return vrt.RVRole(v) == roleCell && !specCellOf(v).ro
}

func specVCanInterface(v reflect.Value) bool {
	vrt.Assert("C22.no-panic", vrt.RVRole(v) != roleNone)
	if vrt.RVRole(v) == roleCell {
		return !specCellOf(v).ro
	}
	return vrt.RVRole(v) != roleHidden
}

// specSub is the role of the parts of a value.
func specSub(v reflect.Value) int {
	if vrt.RVRole(v) == roleHidden {
		return roleHidden
	}
	return roleValue
}

func specVElem(v reflect.Value) reflect.Value {
	if vrt.RVRole(v) == rolePtr {
		return specRV(vrt.RVTyp(v), vrt.RVId(v), roleCell)
	}
	x := specContents(v)
	t := vrt.RVTyp(v)
	if !specIsKind(t, specIface) {
		vrt.Unmodelled()
	}
	if specNilContents(x) {
		return specRV(0, 0, roleNone)
	}
	if x < 0 {
		vrt.Unmodelled()
	}
	e := specElem(x)
	d := specTypeOf(e)
	vrt.Assume(e > 0 && e < specCopies && !specIsKind(d, specIface) && specImplements(d, t))
	return specRV(d, e, specSub(v))
}

func specVLen(v reflect.Value) int {
	t := vrt.RVTyp(v)
	x := specContents(v)
	if specIsKind(t, specArray) {
		vrt.Assume(specArrayLen(t) >= 0 && specArrayLen(t) < 1<<40)
		return specArrayLen(t)
	}
	if specIsKind(t, int(reflect.String)) || specIsKind(t, int(reflect.Chan)) {
		vrt.Unmodelled()
	}
	vrt.Assert("C22.no-panic", specIsKind(t, specSlice) || specIsKind(t, specMap))
	if specNilContents(x) {
		return 0
	}
	if x < 0 {
		if specIsKind(t, specMap) {
			vrt.Unmodelled()
		}
		return vrt.AtRef[specCell](x).n
	}
	vrt.Assume(specLen(x) >= 0 && specLen(x) < 1<<40)
	return specLen(x)
}

func specVCap(v reflect.Value) int {
	t := vrt.RVTyp(v)
	if !specIsKind(t, specSlice) {
		vrt.Unmodelled()
	}
	n := specVLen(v)
	x := specContents(v)
	if x <= 0 || specIsNil(x) {
		return n
	}
	vrt.Assume(specCap(x) >= n && specCap(x) < 1<<40)
	return specCap(x)
}

// specChild is element i of variable or composite value o.
func specChild(o *specCell, t, i int, ro bool) reflect.Value {
	c := specNewCell(t)
	c.owner, c.idx, c.ro = o, i, ro
	if o.val > 0 {
		c.val = specItem(o.val, i)
	}
	if !o.vnew || i != o.vat {
		// something may have been written there
		c.val = vrt.Int("element", 0, 2*specCopies)
	}
	return specRV(t, vrt.RefOf(c), roleCell)
}

func specVIndex(v reflect.Value, i int) reflect.Value {
	t := vrt.RVTyp(v)
	x := specContents(v)
	if !specIsKind(t, specSlice) && !specIsKind(t, specArray) {
		vrt.Unmodelled()
	}
	vrt.Assert("C22.no-panic", 0 <= i && i < specVLen(v))
	e := specElemType(t)
	if specIsKind(t, specArray) && specIsCell(v) {
		return specChild(specCellOf(v), e, i, specCellOf(v).ro)
	}
	if x < 0 {
		return specChild(vrt.AtRef[specCell](x), e, i, false)
	}
	if x == 0 {
		vrt.Unmodelled()
	}
	return specRV(e, specPart(specItem(x, i), e), specSub(v))
}

func specVNumField(v reflect.Value) int {
	t := vrt.RVTyp(v)
	specContents(v)
	vrt.Assert("C22.no-panic", specIsKind(t, specStruct))
	vrt.Assume(specNumFields(t) >= 0 && specNumFields(t) < 1<<40)
	return specNumFields(t)
}

func specVField(v reflect.Value, i int) reflect.Value {
	t := vrt.RVTyp(v)
	vrt.Assert("C22.no-panic", 0 <= i && i < specVNumField(v))
	f := specFieldType(t, i)
	if specIsCell(v) {
		return specChild(specCellOf(v), f, i, specCellOf(v).ro || !specExported(t, i))
	}
	x := specContents(v)
	if x <= 0 {
		vrt.Unmodelled()
	}
	role := specSub(v)
	if !specExported(t, i) {
		role = roleHidden
	}
	return specRV(f, specPart(specItem(x, i), f), role)
}

func specVMapKeys(v reflect.Value) []reflect.Value {
	t := vrt.RVTyp(v)
	x := specContents(v)
	vrt.Assert("C22.no-panic", specIsKind(t, specMap))
	if specNilContents(x) {
		return nil
	}
	if x < 0 {
		vrt.Unmodelled()
	}
	keys := vrt.Any[[]reflect.Value]("keys")
	k := specKeyType(t)
	role := specSub(v)
	vrt.Assume(len(keys) == specVLen(v) && vrt.Forall(0, specLen(x), func(i int) bool {
		r := specKey(x, i)
		return vrt.RVTyp(keys[i]) == k && vrt.RVId(keys[i]) == r && vrt.RVRole(keys[i]) == role &&
			r > 0 && r < specCopies && specTypeOf(r) == k && specKeyOf(x, r)
	}))
	return keys
}

func specVMapIndex(v, key reflect.Value) reflect.Value {
	t := vrt.RVTyp(v)
	x := specContents(v)
	vrt.Assert("C22.no-panic", specIsKind(t, specMap))
	k := specContents(key)
	if x <= 0 || k <= 0 || !specKeyOf(x, k) {
		vrt.Unmodelled()
	}
	e := specElemType(t)
	return specRV(e, specPart(specAt(x, k), e), specSub(v))
}

// specAssign checks that x can be assigned to a variable of type t; the value the variable holds then.
func specAssign(t int, x reflect.Value) int {
	vrt.Assert("C22.no-panic", vrt.RVRole(x) != roleNone && vrt.RVRole(x) != roleHidden)
	if vrt.RVRole(x) == rolePtr {
		vrt.Unmodelled()
	}
	v := specContents(x)
	d := vrt.RVTyp(x)
	if specIsCell(x) {
		vrt.Assert("C22.no-panic", !specCellOf(x).ro)
		c := specCellOf(x)
		if v >= 0 && !c.vnew {
			// a partly overwritten array or struct
			v = vrt.Int("written", 1, 2*specCopies)
		}
	}
	if d == t {
		return v
	}
	vrt.Assert("C22.no-panic", specIsKind(t, specIface) && specImplements(d, t))
	if specIsKind(d, specIface) {
		return v
	}
	b := specNewCell(t)
	b.box = v
	return vrt.RefOf(b)
}

func specVSetMapIndex(m, key, val reflect.Value) {
	t := vrt.RVTyp(m)
	x := specContents(m)
	vrt.Assert("C22.no-panic", specIsKind(t, specMap) && vrt.RVRole(m) != roleHidden && x != 0)
	if x > 0 || vrt.RVRole(val) == roleNone {
		vrt.Unmodelled()
	}
	k := specAssign(specKeyType(t), key)
	v := specAssign(specElemType(t), val)
	c := vrt.AtRef[specCell](x)
	if !(k < specCopies && specDeep(k, k) && specKeyOf(c.of, k) || specKeyOf(c.of, specCopyOf(k)) && specDeep(k, specCopyOf(k))) {
		c.odd = true
	}
	if specDeep(k, specKey(c.of, c.vat)) {
		c.vnew, c.vhit = false, specDeep(v, c.want)
	}
}

func specVSet(c, x reflect.Value) {
	vrt.Assert("C22.no-panic", specVCanSet(c))
	specCellOf(c).set(specAssign(vrt.RVTyp(c), x))
}

func specVInterface(v reflect.Value) interface{} {
	vrt.Assert("C22.no-panic", specVCanInterface(v) && vrt.RVRole(v) != rolePtr)
	if specIsKind(vrt.RVTyp(v), specIface) {
		vrt.Unmodelled()
	}
	return &specBox{vrt.RVTyp(v), specContents(v)}
}

// ---- the contract ----

var _ = vrt.Stub(copyRecursive, specCopyRecursive)

// specCopyRecursive: copying a value into a variable that is new or holds the value already.
func specCopyRecursive(original, cpy reflect.Value) {
	role := vrt.RVRole(original)
	vrt.Assert("C22.no-panic", role == roleValue || role == roleCell && !specCellOf(original).ro)
	vrt.Assert("C22.parts", role != roleRoot) // it ends: only parts are copied
	vrt.Assert("C22.no-panic", specVCanSet(cpy))
	vrt.Assert("C22.same-type", vrt.RVTyp(original) == vrt.RVTyp(cpy))
	s := specContents(original)
	c := specCellOf(cpy)
	vrt.Assert("C22.new-variable", c.owner != nil && c.idx != c.owner.vat || c.vnew && (c.val == 0 || c.val == s))
	d := vrt.Int("copy", specCopies, 2*specCopies)
	vrt.Assume(specCopyOf(d) == s && specTypeOf(d) == specTypeOf(s))
	c.set(d)
}

func specSource() (v, t, w int) {
	v, t, w = vrt.Int("value", 1, specCopies-1), vrt.Int("type", 1, 1<<40), vrt.Int("position", 0, 1<<40)
	vrt.Assume(specTypeOf(v) == t && specKindOf(t) >= 1 && specKindOf(t) <= 26)
	want := specItem(v, w)
	if specIsKind(t, specMap) {
		want = specAt(v, specPart(specKey(v, w), specKeyType(t)))
	}
	specCopied = &specRoot{v, w, want}
	return
}

// specSize is the number of positions in value v of type t.
func specSize(v, t int) int {
	n := 0
	switch {
	case specIsKind(t, specArray):
		n = specArrayLen(t)
	case specIsKind(t, specStruct):
		n = specNumFields(t)
	case (specIsKind(t, specSlice) || specIsKind(t, specMap)) && !specIsNil(v):
		n = specLen(v)
	}
	vrt.Assume(n >= 0 && n < 1<<40)
	return n
}

func prove_C22_CopyRecursive() {
	vrt.Expect("map")
	vrt.Expect("slice")
	vrt.Expect("struct")
	vrt.UseStubs()
	v, t, w := specSource()
	c := specNewCell(t)
	if vrt.Bool("holds") {
		c.val = v // field or element of a value that was copied as a whole
	}
	// the position of interest exists
	n := specSize(v, t)
	if n == 0 {
		vrt.Cover("empty")
	} else {
		vrt.Assume(w < n)
	}
	if specIsKind(t, specStruct) && !specExported(t, w) {
		vrt.Cover("hidden field")
	}
	copyRecursive(specRV(t, v, roleRoot), specRV(t, vrt.RefOf(c), roleCell))
	x := c.val
	same := x == v && c.vnew
	switch {
	case n == 0 && (specIsKind(t, specArray) || specIsKind(t, specStruct)):
	case specPlain(t):
		vrt.Assert("C22.equal", same)
	case specIsKind(t, specArray):
		vrt.Assert("C22.array", c.vhit || same && specDeep(specItem(v, w), specItem(v, w)))
	case specIsKind(t, specStruct):
		if specExported(t, w) {
			vrt.Cover("struct")
			vrt.Assert("C22.struct", c.vhit || same && specDeep(specItem(v, w), specItem(v, w)))
		} else {
			vrt.Assert("C22.struct", same)
		}
	case specIsNil(v):
		vrt.Assert("C22.nil", x == 0 || x == v)
	case specIsKind(t, specIface):
		vrt.Assert("C22.isolated", x < 0)
		vrt.Assert("C22.interface", specDeep(vrt.AtRef[specCell](x).box, specElem(v)))
	case specIsKind(t, specSlice):
		vrt.Cover("slice")
		vrt.Assert("C22.isolated", x < 0)
		vrt.Assert("C22.slice", vrt.AtRef[specCell](x).n == specLen(v) && (n == 0 || vrt.AtRef[specCell](x).vhit))
	case specIsKind(t, specMap):
		vrt.Cover("map")
		vrt.Assert("C22.isolated", x < 0)
		vrt.Assert("C22.map", !vrt.AtRef[specCell](x).odd && (n == 0 || vrt.AtRef[specCell](x).vhit))
	}
}

// ---- the functions that use it ----

var _ = vrt.Stub(deepCopy, specDeepCopy)

// specCopyBox is the copy of src.
type specCopyBox struct{ src interface{} }

var specMapCopied, specMapCopy map[string]interface{}

// specDeepCopy: the contract of deepCopy.
func specDeepCopy(src interface{}) interface{} {
	if src == nil {
		return nil
	}
	if m, ok := src.(map[string]interface{}); ok {
		specMapCopied, specMapCopy = m, nil
		if m != nil {
			specMapCopy = make(map[string]interface{})
		}
		return specMapCopy
	}
	return &specCopyBox{src}
}

func prove_C22_DeepCopy() {
	vrt.UseStubs()
	v, t, _ := specSource()
	vrt.Assume(!specIsKind(t, specIface))
	if vrt.Bool("nil") {
		vrt.Assert("C22.nil", deepCopy(nil) == nil)
		return
	}
	b, ok := deepCopy(&specBox{t, v}).(*specBox)
	vrt.Assert("C22.copy", ok && b.typ == t && specDeep(b.v, v))
}

func prove_C22_Info() {
	vrt.Expect("copied")
	vrt.Expect("value")
	vrt.UseStubs()
	data := vrt.Any[map[string]interface{}]("data")
	if vrt.Bool("empty") {
		data = nil
	}
	info := GenericSessionInfoParser(data)
	if vrt.Bool("copy") {
		vrt.Cover("copied")
		c, ok := info.Copy().(*GenericSessionInfo)
		vrt.Assert("C22.copy", ok && c != nil)
		vrt.Assert("C22.copy", vrt.SameRef(specMapCopied, data) && vrt.SameRef(c.data, specMapCopy))
		return
	}
	name := vrt.String("name")
	x := info.Value(name)
	stored, exists := data[name]
	if !exists || stored == nil {
		vrt.Assert("C22.value", x == nil)
		return
	}
	vrt.Cover("value")
	if m, ok := stored.(map[string]interface{}); ok {
		r, ok := x.(map[string]interface{})
		vrt.Assert("C22.value", ok && vrt.SameRef(specMapCopied, m) && vrt.SameRef(r, specMapCopy))
		return
	}
	c, ok := x.(*specCopyBox)
	vrt.Assert("C22.value", ok && vrt.SameRef(c.src, stored))
}

func prove_C22_Fields() {
	data := vrt.Any[map[string]interface{}]("data")
	if vrt.Bool("empty") {
		data = nil
	}
	names := GenericSessionInfoParser(data).Fields()
	vrt.Assert("C22.fields", len(names) == len(data))
	i := vrt.Int("i", 0, 1<<40)
	if i < len(names) {
		_, ok := data[names[i]]
		vrt.Assert("C22.fields", ok)
		j := vrt.Int("j", 0, 1<<40)
		vrt.Assert("C22.fields-once", j >= len(names) || j == i || names[i] != names[j])
	}
}

// specBag is session info with any fields.
type specBag struct {
	names []string
	vals  map[string]interface{}
}

func (b *specBag) Fields() []string               { return b.names }
func (b *specBag) Value(f string) interface{}     { return spBagValue(b, f) }
func spBagValue(b *specBag, f string) interface{} { return b.vals[f] }

func (b *specBag) Copy() SessionInfo { return &specBag{b.names, b.vals} }

func prove_C22_VarMap() {
	vrt.Assert("C22.varmap-nil", SessionInfoToVarMap(nil) == nil)
	b := &specBag{vrt.Any[[]string]("names"), vrt.Any[map[string]interface{}]("vals")}
	k := vrt.String("name")
	vrt.InstKey(k)
	other := vrt.Bool("other")
	if other {
		vrt.Assume(vrt.Forall(0, len(b.names), func(i int) bool { return b.names[i] != k }))
	}
	m := SessionInfoToVarMap(b)
	if other {
		_, ok := m[k]
		vrt.Assert("C22.varmap-only", !ok)
		return
	}
	i := vrt.Int("i", 0, 1<<40)
	if i < len(b.names) {
		x, ok := m[b.names[i]]
		vrt.Assert("C22.varmap", ok && vrt.SameRef(x, b.vals[b.names[i]]))
	}
}

func prove_C22_Clone() {
	s := &Session{Key: vrt.String("key"), Creation: specTime("creation"), LastLookup: specTime("lookup")}
	info := &specInfo{vrt.String("x"), vrt.String("y")}
	if vrt.Bool("info") {
		s.Info = info
	}
	c := s.Clone()
	vrt.Assert("C22.clone", c != nil && c != s && c.Key == s.Key && c.Creation == s.Creation && c.LastLookup == s.LastLookup)
	vrt.Assert("C22.clone-nil", (*Session)(nil).Clone() == nil)
	if s.Info == nil {
		vrt.Assert("C22.clone-info", c.Info == nil)
		return
	}
	i, ok := c.Info.(*specInfo)
	vrt.Assert("C22.clone-info", ok && i != info && i.x == info.x && i.y == info.y)
}

// ---- native runs on real values (bounded: random values of limited depth) ----

type specInner struct {
	A []interface{}
	M map[string]interface{}
	P [2][]string
	I interface{}
	n int
}

type specKeyed struct {
	X int
	Y [2]interface{}
}

// specTree builds the value the choices describe.
type specTree struct {
	choices []int
	at      int
}

func (t *specTree) pick(n int) int {
	if t.at == len(t.choices) {
		t.choices = append(t.choices, vrt.Int("choice", 0, 999))
	}
	c := t.choices[t.at]
	t.at++
	return c % n
}

func (t *specTree) value(depth int) interface{} {
	n := 15
	if depth == 0 {
		n = 5
	}
	names := []string{"a", "b", "", "c"}
	switch t.pick(n) {
	case 0:
		return nil
	case 1:
		return t.pick(100)
	case 2:
		return names[t.pick(4)]
	case 3:
		return float64(t.pick(100)) / 3
	case 4:
		return t.pick(2) == 0
	case 5:
		return t.fields(depth - 1)
	case 6:
		if t.pick(5) == 0 {
			return []interface{}(nil)
		}
		s := make([]interface{}, t.pick(4), 5)
		for i := range s {
			s[i] = t.value(depth - 1)
		}
		return s
	case 7:
		s := make([]map[string]int, t.pick(3))
		for i := range s {
			if t.pick(3) > 0 {
				s[i] = map[string]int{names[t.pick(4)]: t.pick(9)}
			}
		}
		return s
	case 8:
		return [3]interface{}{t.value(depth - 1), t.pick(9), t.value(depth - 1)}
	case 9:
		return specInner{[]interface{}{t.value(depth - 1)}, t.fields(depth - 1), [2][]string{{"p", names[t.pick(4)]}, nil}, t.value(depth - 1), t.pick(9)}
	case 10:
		m := map[interface{}]interface{}{}
		for i, n := 0, t.pick(4); i < n; i++ {
			var k interface{}
			switch t.pick(5) {
			case 0:
				k = names[t.pick(4)]
			case 1:
				k = t.pick(9)
			case 2:
				k = specKeyed{t.pick(9), [2]interface{}{names[t.pick(4)], nil}}
			case 3:
				k = [1]string{names[t.pick(4)]}
			}
			m[k] = t.value(depth - 1)
		}
		return m
	case 11:
		return map[int][]string{t.pick(9): {"x", names[t.pick(4)]}, 11: nil}
	case 12:
		return [][]int{{t.pick(9), t.pick(9)}, nil, {}, {t.pick(9)}}
	case 13:
		return map[specKeyed]*int{{X: t.pick(9)}: nil, {Y: [2]interface{}{t.pick(9), "k"}}: nil}
	}
	return []byte{byte(t.pick(256)), byte(t.pick(256))}
}

func (t *specTree) fields(depth int) map[string]interface{} {
	if t.pick(8) == 0 {
		return nil
	}
	m := map[string]interface{}{}
	for i, n := 0, t.pick(4); i < n; i++ {
		m[string(rune('f'+i))] = t.value(depth)
	}
	return m
}

// specScramble changes everything that can be changed in place.
func specScramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			specScramble(v.Elem())
		}
	case reflect.Slice:
		v = v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			specScramble(v.Index(i))
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			specScramble(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanInterface() {
				specScramble(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			specScramble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		k := reflect.New(v.Type().Key()).Elem()
		v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
	}
}

func prove_C22_Native() {
	if !vrt.Native() {
		return
	}
	t := &specTree{}
	build := func() map[string]interface{} {
		t.at = 0
		m := t.fields(3)
		if m != nil {
			m["x"] = t.value(3)
		}
		return m
	}
	want := build()
	data := build()
	info := GenericSessionInfoParser(data)
	c := info.Copy().(*GenericSessionInfo)
	vrt.Assert("C22.copy-equal", reflect.DeepEqual(c.data, want))
	vals := map[string]interface{}{}
	for n := range want {
		vals[n] = info.Value(n)
		vrt.Assert("C22.value-equal", reflect.DeepEqual(vals[n], want[n]))
	}
	vrt.Assert("C22.value-missing", info.Value("missing") == nil)
	names := map[string]bool{}
	for _, n := range info.Fields() {
		_, ok := want[n]
		vrt.Assert("C22.fields-native", ok && !names[n])
		names[n] = true
	}
	vrt.Assert("C22.fields-native", len(names) == len(want))
	vrt.Assert("C22.varmap-native", len(want) == 0 || reflect.DeepEqual(SessionInfoToVarMap(info), want))
	// changes of copies don't reach the session
	for _, v := range vals {
		specScramble(reflect.ValueOf(&v).Elem())
	}
	vrt.Assert("C22.value-isolated", reflect.DeepEqual(data, want))
	specScramble(reflect.ValueOf(c.data))
	vrt.Assert("C22.copy-isolated", reflect.DeepEqual(data, want))
	// changes of the session don't reach copies
	c = info.Copy().(*GenericSessionInfo)
	for n := range want {
		vals[n] = info.Value(n)
	}
	specScramble(reflect.ValueOf(data))
	vrt.Assert("C22.copy-isolated", reflect.DeepEqual(c.data, want))
	for n := range want {
		vrt.Assert("C22.value-isolated", reflect.DeepEqual(vals[n], want[n]))
	}
}
