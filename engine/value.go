package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, *Value (pointer), *SymPtr, *RePtr, Struct, Array, Slice, Iface,
// *MapObj, *ChanObj, *Closure, *ssa.Function, *ssa.Builtin, Tuple, RVal, RType, UPtr, *MapIter, *StrIter.
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// Str is a string of concrete length. t==nil: concrete.
type Str struct {
	s string
	t []*Term
}

func (s Str) Len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

// Slice: n==nil: length len(a), capacity cap(a). n!=nil: symbolic length with
// len(a) materialised elements; c is the symbolic capacity (nil: len(a)).
type Slice struct {
	a []Value
	n *Term
	c *Term
}

type Iface struct {
	t types.Type // dynamic type, nil for a nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// bound method value made by reflection or engine code
type NativeFn struct {
	name string
	f    func(m *M, g *G, args []Value) Value
}

type UPtr struct {
	p Value // *Value or nil
	t types.Type
}

// SymPtr is the address of an element selected by a symbolic index.
type SymPtr struct {
	base []Value
	idx  *Term
}

// RePtr is a pointer obtained by reinterpreting another one ([]byte -> string).
type RePtr struct {
	p    *Value
	from types.Type
	to   types.Type
}

type RVal struct {
	t    types.Type // nil: invalid
	v    Value
	addr *Value // non-nil if addressable
	ro   bool
}

type RType struct{ t types.Type }

type mapEntry struct {
	k    Value
	cell *Value
	dead bool
}

type MapObj struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	nsym    int                  // live entries with symbolic keys
	live    int
	cell    Value // for race tracking identity
}

type MapIter struct {
	m    *MapObj
	rest []*mapEntry
	init bool
	kt   types.Type
}

type StrIter struct {
	s   Str
	pos int
}

type ChanObj struct {
	id     int
	cap    int
	buf    []chanItem
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	cvc    VC // closing clock
	slots  []VC
	recvN  int
	sendN  int
	rvcs   []VC // clocks of receives, for capacity edges
	name   string
}

type chanItem struct {
	v  Value
	vc VC
}

type waiter struct {
	g    *G
	val  Value // to send
	sel  *selState
	idx  int
	done bool
}

type selState struct {
	fired bool
	idx   int
	val   Value
	ok    bool
	vc    VC
	dead  bool // closed channel on send
}

func mkStr(t []*Term) Str {
	for _, x := range t {
		if !x.isConst() {
			return Str{t: t}
		}
	}
	b := make([]byte, len(t))
	for i, x := range t {
		b[i] = byte(x.v)
	}
	return Str{s: string(b)}
}

func (m *M) strTerms(s Str) []*Term {
	if s.t != nil {
		return s.t
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = m.tb.Const(uint64(s.s[i]), 8)
	}
	return r
}

func (m *M) strAt(s Str, i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return m.tb.Const(uint64(s.s[i]), 8)
}

func (m *M) strSlice(s Str, lo, hi int) Str {
	if s.t == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.t[lo:hi])
}

func (m *M) strConcat(a, b Str) Str {
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	x := append(append([]*Term{}, m.strTerms(a)...), m.strTerms(b)...)
	return mkStr(x)
}

func (m *M) strEq(a, b Str) *Term {
	if a.t == nil && b.t == nil {
		return m.tb.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return m.tb.False
	}
	r := m.tb.True
	for i := 0; i < a.Len(); i++ {
		r = m.tb.And(r, m.tb.Eq(m.strAt(a, i), m.strAt(b, i)))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *M) strLess(a, b Str) *Term {
	if a.t == nil && b.t == nil {
		return m.tb.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := m.tb.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.strAt(a, i), m.strAt(b, i)
		r = m.tb.Ite(m.tb.Eq(x, y), r, m.tb.Bin(OULt, x, y))
	}
	return r
}

// copyVal makes an independent copy of aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

// storeInto keeps the identity of the cells of aggregates.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(v) {
			for i := range v {
				storeInto(&old[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func (m *M) zero(t types.Type) Value {
	if isNamed(t, "reflect", "Value") {
		return RVal{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsBoolean != 0:
			return m.tb.False
		case u.Info()&types.IsComplex != 0:
			m.unsupported("complex numbers")
		}
		return m.tb.Const(0, basicWidth(u))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Array:
		n := int(u.Len())
		r := make(Array, n)
		if n > 0 {
			z := m.zero(u.Elem())
			for i := range r {
				r[i] = copyVal(z)
			}
		}
		return r
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = m.zero(u.Field(i).Type())
		}
		return r
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.unsupported(fmt.Sprintf("zero of %s", t))
	return nil
}

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNilPtr(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case UPtr:
		return isNilPtr(v.p)
	}
	return false
}

// eq returns the boolean term a == b for operands of type t.
func (m *M) eq(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if isFloat(t) {
			return m.tb.FBin(OFEq, x, y)
		}
		return m.tb.Eq(x, y)
	case Str:
		return m.strEq(x, b.(Str))
	case *Value:
		y, ok := b.(*Value)
		return m.tb.Bool(ok && x == y)
	case UPtr:
		y := b.(UPtr)
		if isNilPtr(x) || isNilPtr(y) {
			return m.tb.Bool(isNilPtr(x) && isNilPtr(y))
		}
		return m.tb.Bool(x.p == y.p)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := m.tb.True
		for i := range x {
			r = m.tb.And(r, m.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := m.tb.True
		for i := range x {
			r = m.tb.And(r, m.eq(et, x[i], y[i]))
		}
		return r
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return m.tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.tb.False
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + typeStr(x.t))
		}
		return m.eq(x.t, x.v, y.v)
	case RType:
		y, ok := b.(RType)
		return m.tb.Bool(ok && types.Identical(x.t, y.t))
	case *MapObj:
		y := b.(*MapObj)
		return m.tb.Bool(x == y)
	case *ChanObj:
		y := b.(*ChanObj)
		return m.tb.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return m.tb.Bool(x.a == nil && x.n == nil && y.a == nil && y.n == nil)
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return m.tb.Bool(ok && x == y)
	case *Closure, *NativeFn:
		return m.tb.Bool(a == b)
	case *SymPtr:
		return m.tb.False
	}
	m.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// hashKey gives a canonical string for fully concrete keys.
func hashKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("%d:%d", x.w, x.v), true
		}
		return "", false
	case Str:
		if x.t == nil {
			return "s" + x.s, true
		}
		return "", false
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *ChanObj:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := hashKey(x.v)
		return "i" + x.t.String() + "|" + k, ok
	case RType:
		return "T" + x.t.String(), true
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d,%s;", len(k), k)
		}
		return sb.String(), true
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d,%s;", len(k), k)
		}
		return sb.String(), true
	}
	return "", false
}

// floats as keys: +0/-0 equal, NaN unequal -> treat as symbolic (slow path)
func floatInKey(t types.Type, v Value) bool {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return false
		}
		return floatInKey(i.t, i.v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if floatInKey(u.Field(i).Type(), v.(Struct)[i]) {
				return true
			}
		}
	case *types.Array:
		for i := range v.(Array) {
			if floatInKey(u.Elem(), v.(Array)[i]) {
				return true
			}
		}
	}
	return false
}

func (m *M) newMap() *MapObj { return &MapObj{idx: map[string]*mapEntry{}} }

func (m *M) checkHashable(t types.Type, k Value) {
	if i, ok := k.(Iface); ok {
		if i.t != nil {
			if !types.Comparable(i.t) {
				m.rtPanic("hash of unhashable type " + typeStr(i.t))
			}
			m.checkHashable(i.t, i.v)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.checkHashable(u.Field(i).Type(), k.(Struct)[i])
		}
	case *types.Array:
		for i := range k.(Array) {
			m.checkHashable(u.Elem(), k.(Array)[i])
		}
	}
}

func (m *M) mapFind(mo *MapObj, kt types.Type, k Value) *mapEntry {
	if mo == nil {
		m.checkHashable(kt, k)
		return nil
	}
	m.checkHashable(kt, k)
	h, conc := hashKey(k)
	if conc && floatInKey(kt, k) {
		conc = false
	}
	if conc {
		if e, ok := mo.idx[h]; ok && !e.dead {
			return e
		}
		if mo.nsym == 0 {
			return nil
		}
	}
	for _, e := range mo.entries {
		if e.dead {
			continue
		}
		c := m.eq(kt, e.k, k)
		if m.branch(c) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mo *MapObj, kt types.Type, k, v Value) {
	if e := m.mapFind(mo, kt, k); e != nil {
		*e.cell = copyVal(v)
		return
	}
	cell := new(Value)
	*cell = copyVal(v)
	e := &mapEntry{k: copyVal(k), cell: cell}
	mo.entries = append(mo.entries, e)
	mo.live++
	if h, ok := hashKey(k); ok && !floatInKey(kt, k) {
		mo.idx[h] = e
	} else {
		mo.nsym++
	}
}

func (m *M) mapDelete(mo *MapObj, kt types.Type, k Value) {
	e := m.mapFind(mo, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	mo.live--
	if h, ok := hashKey(e.k); ok && mo.idx[h] == e {
		delete(mo.idx, h)
	} else {
		mo.nsym--
	}
	// compact
	for i, x := range mo.entries {
		if x == e {
			mo.entries = append(append([]*mapEntry{}, mo.entries[:i]...), mo.entries[i+1:]...)
			break
		}
	}
}

func (m *M) sliceLen(s Slice) *Term {
	if s.n != nil {
		return s.n
	}
	return m.tb.Const(uint64(len(s.a)), 64)
}

func (m *M) sliceCap(s Slice) *Term {
	if s.n != nil {
		if s.c != nil {
			return s.c
		}
		return m.tb.Const(uint64(len(s.a)), 64)
	}
	return m.tb.Const(uint64(cap(s.a)), 64)
}

// concSlice forces a concrete length.
func (m *M) concSlice(s Slice, what string) []Value {
	if s.n == nil {
		return s.a
	}
	if m.branch(m.tb.Bin(OULt, m.tb.Const(uint64(len(s.a)), 64), s.n)) {
		m.finish("bound", fmt.Sprintf("slice of symbolic length beyond the %d materialised elements (%s)", len(s.a), what))
	}
	n := int(m.concretize(s.n, "length of "+what))
	return s.a[:n:len(s.a)]
}

func (m *M) strOf(v Value) string {
	s := v.(Str)
	if s.t != nil {
		// concretise byte by byte (rare; diagnostics only)
		b := make([]byte, len(s.t))
		for i, t := range s.t {
			b[i] = byte(m.concretize(t, "string byte"))
		}
		return string(b)
	}
	return s.s
}

func (m *M) bytesToStr(a []Value) Str {
	t := make([]*Term, len(a))
	for i, x := range a {
		t[i] = x.(*Term)
	}
	return mkStr(t)
}

func (m *M) strToBytes(s Str) Slice {
	a := make([]Value, s.Len())
	for i := range a {
		a[i] = m.strAt(s, i)
	}
	return Slice{a: a}
}
