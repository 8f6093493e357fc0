package main

// Model of package reflect over go/types.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 1
		case types.Int, types.UntypedInt:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32, types.UntypedRune:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64, types.UntypedFloat:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String, types.UntypedString:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func (m *M) panicStr(s string) {
	panic(targetPanic{v: Iface{types.Typ[types.String], Str{s: s}}})
}

func (m *M) rtype(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	return Iface{m.ld.rtypeT, RType{t}}
}

func (m *M) rvGet(r RVal) Value {
	if r.addr != nil {
		m.access(r.addr, false)
		return *r.addr
	}
	return r.v
}

// exported methods in the order of reflect
func (m *M) exportedMethods(t types.Type) []*types.Selection {
	ms := m.ld.prog.MethodSets.MethodSet(t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func (m *M) methodVal(r RVal, s *types.Selection) RVal {
	sg := s.Type().(*types.Signature)
	ft := types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
	recv := copyVal(m.rvGet(r))
	var fn Value
	if i, ok := recv.(Iface); ok && kindOf(r.t) == 20 {
		if i.t == nil {
			m.panicStr("reflect: Method on nil interface value")
		}
		f := m.method(i, s.Obj().Pkg(), s.Obj().Name())
		fn = &NativeFn{name: s.Obj().Name(), f: func(m *M, g *G, args []Value) Value {
			return m.call(g, g.top, f, append([]Value{i.v}, args...), nil)
		}}
	} else {
		f := m.ld.lookupMethod(r.t, s.Obj().Pkg(), s.Obj().Name())
		fn = &NativeFn{name: s.Obj().Name(), f: func(m *M, g *G, args []Value) Value {
			return m.call(g, g.top, f, append([]Value{recv}, args...), nil)
		}}
	}
	return RVal{t: ft, v: fn}
}

func (m *M) mustKind(r RVal, op string, kinds ...int) {
	k := 0
	if r.t != nil {
		k = kindOf(r.t)
	}
	for _, x := range kinds {
		if x == k {
			return
		}
	}
	if k == 0 {
		m.panicStr("reflect: call of reflect.Value." + op + " on zero Value")
	}
	m.panicStr("reflect: call of reflect.Value." + op + " on " + kindNames[k] + " Value")
}

func (m *M) valueToIface(r RVal) Iface {
	if r.t == nil {
		m.panicStr("reflect: call of reflect.Value.Interface on zero Value")
	}
	v := m.rvGet(r)
	if kindOf(r.t) == 20 {
		return v.(Iface)
	}
	return Iface{r.t, copyVal(v)}
}

// assignTo converts r for use as type t, as reflect's assignment does.
func (m *M) assignTo(ctx string, r RVal, t types.Type) Value {
	if !types.AssignableTo(r.t, t) {
		m.panicStr(ctx + " using " + typeStr(r.t) + " as type " + typeStr(t))
	}
	v := copyVal(m.rvGet(r))
	if kindOf(t) == 20 && kindOf(r.t) != 20 {
		return Iface{r.t, v}
	}
	return v
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Value:
		return x == nil
	case *MapObj:
		return x == nil
	case *ChanObj:
		return x == nil
	case Slice:
		return x.a == nil && x.n == nil
	case Iface:
		return x.t == nil
	case *ssa.Function:
		return x == nil
	case UPtr:
		return isNilPtr(x)
	}
	return false
}

func (m *M) rvCall(g *G, r RVal, args []Value) Value {
	m.mustKind(r, "Call", 19)
	fn := m.rvGet(r)
	if isNilVal(fn) {
		m.panicStr("reflect: call of nil function")
	}
	sg := r.t.Underlying().(*types.Signature)
	n := sg.Params().Len()
	var in []Value
	if sg.Variadic() {
		if len(args) < n-1 {
			m.panicStr("reflect: Call with too few input arguments")
		}
	} else {
		if len(args) < n {
			m.panicStr("reflect: Call with too few input arguments")
		}
		if len(args) > n {
			m.panicStr("reflect: Call with too many input arguments")
		}
	}
	for _, a := range args {
		if a.(RVal).t == nil {
			m.panicStr("reflect: Call using zero Value argument")
		}
	}
	fixed := n
	if sg.Variadic() {
		fixed = n - 1
	}
	for i := 0; i < fixed; i++ {
		in = append(in, m.assignTo("reflect: Call", args[i].(RVal), sg.Params().At(i).Type()))
	}
	if sg.Variadic() {
		st := sg.Params().At(n - 1).Type()
		et := st.Underlying().(*types.Slice).Elem()
		rest := []Value{}
		for i := fixed; i < len(args); i++ {
			rest = append(rest, m.assignTo("reflect: Call", args[i].(RVal), et))
		}
		in = append(in, Slice{a: rest})
	}
	res := m.call(g, g.top, fn, in, nil)
	out := []Value{}
	switch sg.Results().Len() {
	case 0:
	case 1:
		out = append(out, RVal{t: sg.Results().At(0).Type(), v: res})
	default:
		for i, x := range res.(Tuple) {
			out = append(out, RVal{t: sg.Results().At(i).Type(), v: x})
		}
	}
	return Slice{a: out}
}

func (m *M) rtypeMethod(g *G, t types.Type, name string, args []Value) Value {
	tb := m.tb
	tOf := func(v Value) types.Type {
		i := v.(Iface)
		if i.t == nil {
			m.panicStr("reflect: nil type passed to Type." + name)
		}
		return i.v.(RType).t
	}
	switch name {
	case "Kind":
		return tb.Const(uint64(kindOf(t)), 64)
	case "String":
		return Str{s: typeStr(t)}
	case "Name":
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			return Str{s: x.Obj().Name()}
		case *types.Basic:
			return Str{s: x.Name()}
		}
		return Str{}
	case "PkgPath":
		if x, ok := types.Unalias(t).(*types.Named); ok && x.Obj().Pkg() != nil {
			return Str{s: x.Obj().Pkg().Path()}
		}
		return Str{}
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.rtype(u.Elem())
		case *types.Slice:
			return m.rtype(u.Elem())
		case *types.Array:
			return m.rtype(u.Elem())
		case *types.Map:
			return m.rtype(u.Elem())
		case *types.Chan:
			return m.rtype(u.Elem())
		}
		m.panicStr("reflect: Elem of invalid type " + typeStr(t))
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return m.rtype(u.Key())
		}
		m.panicStr("reflect: Key of non-map type " + typeStr(t))
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return m.i64(u.Len())
		}
		m.panicStr("reflect: Len of non-array type " + typeStr(t))
	case "Size":
		return tb.Const(uint64(sizeof(t)), 64)
	case "Bits":
		return m.i64(8 * sizeof(t))
	case "Comparable":
		return tb.Bool(types.Comparable(t))
	case "NumMethod":
		return m.i64(int64(len(m.exportedMethods(t))))
	case "Method", "MethodByName":
		ms := m.exportedMethods(t)
		idx := -1
		if name == "Method" {
			idx = int(m.concretize(args[0].(*Term), "method index"))
			if idx < 0 || idx >= len(ms) {
				m.panicStr("reflect: Method index out of range")
			}
		} else {
			for i, s := range ms {
				if m.branch(m.strEq(args[0].(Str), Str{s: s.Obj().Name()})) {
					idx = i
					break
				}
			}
		}
		zt := m.ld.pkgs["reflect"].Type("Method").Type()
		st := m.zero(zt).(Struct)
		if idx < 0 {
			return Tuple{st, tb.False}
		}
		s := ms[idx]
		sg := s.Type().(*types.Signature)
		ft := types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
		if kindOf(t) != 20 {
			ps := []*types.Var{types.NewVar(0, nil, "recv", t)}
			for i := 0; i < sg.Params().Len(); i++ {
				ps = append(ps, sg.Params().At(i))
			}
			ft = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sg.Results(), sg.Variadic())
		}
		u := zt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Name":
				st[i] = Str{s: s.Obj().Name()}
			case "Type":
				st[i] = m.rtype(ft)
			case "Func":
				if kindOf(t) != 20 {
					st[i] = RVal{t: ft, v: m.ld.lookupMethod(t, s.Obj().Pkg(), s.Obj().Name())}
				}
			case "Index":
				st[i] = m.i64(int64(idx))
			}
		}
		if name == "Method" {
			return st
		}
		return Tuple{st, tb.True}
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		sg, ok := t.Underlying().(*types.Signature)
		if !ok {
			m.panicStr("reflect: " + name + " of non-func type " + typeStr(t))
		}
		switch name {
		case "NumIn":
			return m.i64(int64(sg.Params().Len()))
		case "NumOut":
			return m.i64(int64(sg.Results().Len()))
		case "IsVariadic":
			return tb.Bool(sg.Variadic())
		}
		tu := sg.Params()
		if name == "Out" {
			tu = sg.Results()
		}
		i := int(int64(m.concretize(args[0].(*Term), "parameter index")))
		if i < 0 || i >= tu.Len() {
			m.rtPanic("index out of range")
		}
		return m.rtype(tu.At(i).Type())
	case "ConvertibleTo":
		return tb.Bool(reflConvertible(t, tOf(args[0])))
	case "AssignableTo":
		return tb.Bool(types.AssignableTo(t, tOf(args[0])))
	case "Implements":
		u := tOf(args[0])
		it, ok := u.Underlying().(*types.Interface)
		if !ok {
			m.panicStr("reflect: non-interface type passed to Type.Implements")
		}
		return tb.Bool(types.Implements(t, it))
	case "NumField":
		if st, ok := t.Underlying().(*types.Struct); ok {
			return m.i64(int64(st.NumFields()))
		}
		m.panicStr("reflect: NumField of non-struct type " + typeStr(t))
	case "Field":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.panicStr("reflect: Field of non-struct type " + typeStr(t))
		}
		f := st.Field(int(m.concretize(args[0].(*Term), "field index")))
		zt := m.ld.pkgs["reflect"].Type("StructField").Type()
		r := m.zero(zt).(Struct)
		u := zt.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Name":
				r[i] = Str{s: f.Name()}
			case "Type":
				r[i] = m.rtype(f.Type())
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					r[i] = Str{s: f.Pkg().Path()}
				}
			case "Anonymous":
				r[i] = tb.Bool(f.Anonymous())
			}
		}
		return r
	}
	m.unsupported("reflect.Type." + name)
	return nil
}

func reflConvertible(a, b types.Type) bool {
	if kindOf(a) == 20 && kindOf(b) != 20 {
		return false
	}
	return types.ConvertibleTo(a, b)
}

func initReflect(I map[string]intrinsic) {
	rv := func(v Value) RVal {
		r, ok := v.(RVal)
		if !ok {
			panic(engineError(fmt.Sprintf("reflect.Value is %T", v)))
		}
		return r
	}
	V := func(name string, f func(m *M, g *G, r RVal, args []Value) Value) {
		I["(reflect.Value)."+name] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			return f(m, g, rv(args[0]), args[1:])
		}
	}
	I["reflect.TypeOf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		i := args[0].(Iface)
		return m.rtype(i.t)
	}
	I["reflect.ValueOf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		i := args[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: copyVal(i.v)}
	}
	I["reflect.Indirect"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		r := rv(args[0])
		if r.t == nil || kindOf(r.t) != 22 {
			return r
		}
		return I["(reflect.Value).Elem"](m, g, fn, args)
	}
	I["reflect.Zero"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		t := args[0].(Iface)
		if t.t == nil {
			m.panicStr("reflect: Zero(nil)")
		}
		tt := t.v.(RType).t
		return RVal{t: tt, v: m.zero(tt)}
	}
	I["reflect.New"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		tt := args[0].(Iface).v.(RType).t
		p := new(Value)
		*p = m.zero(tt)
		return RVal{t: types.NewPointer(tt), v: p}
	}
	I["reflect.MakeSlice"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		tt := args[0].(Iface).v.(RType).t
		return RVal{t: tt, v: m.makeSlice(tt, args[1].(*Term), args[2].(*Term))}
	}
	mkmap := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return RVal{t: args[0].(Iface).v.(RType).t, v: m.newMap()}
	}
	I["reflect.MakeMap"], I["reflect.MakeMapWithSize"] = mkmap, mkmap
	I["reflect.PtrTo"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.rtype(types.NewPointer(args[0].(Iface).v.(RType).t))
	}
	I["reflect.PointerTo"] = I["reflect.PtrTo"]
	I["reflect.SliceOf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.rtype(types.NewSlice(args[0].(Iface).v.(RType).t))
	}
	I["reflect.MapOf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.rtype(types.NewMap(args[0].(Iface).v.(RType).t, args[1].(Iface).v.(RType).t))
	}
	I["reflect.Append"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		r := rv(args[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		a := append([]Value{}, m.concSlice(m.rvGet(r).(Slice), "Append")...)
		for _, x := range args[1].(Slice).a {
			a = append(a, m.assignTo("reflect.Append", rv(x), et))
		}
		return RVal{t: r.t, v: Slice{a: a}}
	}
	I["reflect.DeepEqual"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.deepEq(args[0], args[1], types.Universe.Lookup("any").Type(), 0)
	}
	I["(reflect.Kind).String"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		k := m.concretize(args[0].(*Term), "kind")
		if int(k) < len(kindNames) {
			return Str{s: kindNames[k]}
		}
		return Str{s: "kind"}
	}
	I["(reflect.Kind).String"] = I["(reflect.Kind).String"]
	V("Kind", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			return m.i64(0)
		}
		return m.i64(int64(kindOf(r.t)))
	})
	V("IsValid", func(m *M, g *G, r RVal, a []Value) Value { return m.tb.Bool(r.t != nil) })
	V("Type", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.Type on zero Value")
		}
		return m.rtype(r.t)
	})
	V("Interface", func(m *M, g *G, r RVal, a []Value) Value { return m.valueToIface(r) })
	V("CanInterface", func(m *M, g *G, r RVal, a []Value) Value { return m.tb.Bool(!r.ro) })
	V("CanAddr", func(m *M, g *G, r RVal, a []Value) Value { return m.tb.Bool(r.addr != nil) })
	V("CanSet", func(m *M, g *G, r RVal, a []Value) Value { return m.tb.Bool(r.addr != nil && !r.ro) })
	V("IsNil", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "IsNil", 18, 19, 20, 21, 22, 23, 26)
		return m.tb.Bool(isNilVal(m.rvGet(r)))
	})
	V("IsZero", func(m *M, g *G, r RVal, a []Value) Value {
		v := m.rvGet(r)
		if s, ok := v.(Slice); ok {
			return m.tb.Bool(isNilVal(s))
		}
		return m.eq(r.t, v, m.zero(r.t))
	})
	V("Len", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Len", 17, 18, 21, 23, 24)
		switch x := m.rvGet(r).(type) {
		case Array:
			return m.i64(int64(len(x)))
		case Slice:
			return m.sliceLen(x)
		case Str:
			return m.i64(int64(x.Len()))
		case *MapObj:
			if x == nil {
				return m.i64(0)
			}
			m.mapAccess(x, false)
			return m.i64(int64(x.live))
		case *ChanObj:
			return m.i64(int64(len(x.buf)))
		}
		panic(engineError("reflect Len"))
	})
	V("Cap", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Cap", 17, 18, 23)
		switch x := m.rvGet(r).(type) {
		case Array:
			return m.i64(int64(len(x)))
		case Slice:
			return m.sliceCap(x)
		case *ChanObj:
			return m.i64(int64(x.cap))
		}
		panic(engineError("reflect Cap"))
	})
	V("Index", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Index", 17, 23, 24)
		idx := a[0].(*Term)
		switch x := m.rvGet(r).(type) {
		case Array:
			m.bounds(idx, m.i64(int64(len(x))), true, "reflect: array index")
			k := int(m.concretize(idx, "index"))
			et := r.t.Underlying().(*types.Array).Elem()
			if r.addr != nil {
				return RVal{t: et, addr: &x[k]}
			}
			return RVal{t: et, v: copyVal(x[k])}
		case Slice:
			m.bounds(idx, m.sliceLen(x), true, "reflect: slice index")
			k := int(m.concretize(idx, "index"))
			if k >= len(x.a) {
				m.finish("bound", "reflect index beyond materialised elements")
			}
			return RVal{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x.a[k]}
		case Str:
			m.bounds(idx, m.i64(int64(x.Len())), true, "reflect: string index")
			return RVal{t: types.Typ[types.Uint8], v: m.strAt(x, int(m.concretize(idx, "index")))}
		}
		panic(engineError("reflect Index"))
	})
	V("Slice", func(m *M, g *G, r RVal, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return RVal{t: r.t, v: m.sliceSlice(x, a[0].(*Term), a[1].(*Term), nil)}
		case Str:
			lo, hi := a[0].(*Term), a[1].(*Term)
			m.bounds(hi, m.i64(int64(x.Len())), false, "slice bounds")
			m.bounds(lo, hi, false, "slice bounds")
			return RVal{t: r.t, v: m.strSlice(x, int(m.concretize(lo, "slice")), int(m.concretize(hi, "slice")))}
		}
		m.unsupported("reflect.Value.Slice")
		return nil
	})
	V("Bytes", func(m *M, g *G, r RVal, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Slice:
			return x
		}
		m.panicStr("reflect.Value.Bytes of non-byte slice")
		return nil
	})
	V("MapKeys", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "MapKeys", 21)
		mo := m.rvGet(r).(*MapObj)
		kt := r.t.Underlying().(*types.Map).Key()
		out := []Value{}
		if mo != nil {
			m.mapAccess(mo, false)
			it := &MapIter{m: mo}
			for {
				e := m.mapIterNext(it)
				if e == nil {
					break
				}
				out = append(out, RVal{t: kt, v: copyVal(e.k)})
			}
		}
		return Slice{a: out}
	})
	V("MapIndex", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "MapIndex", 21)
		mt := r.t.Underlying().(*types.Map)
		mo := m.rvGet(r).(*MapObj)
		if mo != nil {
			m.mapAccess(mo, false)
		}
		e := m.mapFind(mo, mt.Key(), m.assignTo("reflect.Value.MapIndex", rv(a[0]), mt.Key()))
		if e == nil {
			return RVal{}
		}
		return RVal{t: mt.Elem(), v: copyVal(*e.cell)}
	})
	V("SetMapIndex", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "SetMapIndex", 21)
		mt := r.t.Underlying().(*types.Map)
		mo := m.rvGet(r).(*MapObj)
		if mo == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapAccess(mo, true)
		k := m.assignTo("reflect.Value.SetMapIndex", rv(a[0]), mt.Key())
		if rv(a[1]).t == nil {
			m.mapDelete(mo, mt.Key(), k)
			return nil
		}
		m.mapSet(mo, mt.Key(), k, m.assignTo("reflect.Value.SetMapIndex", rv(a[1]), mt.Elem()))
		return nil
	})
	V("MapRange", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "MapRange", 21)
		p := new(Value)
		mt := r.t.Underlying().(*types.Map)
		mo := m.rvGet(r).(*MapObj)
		if mo == nil {
			mo = m.newMap()
		}
		m.mapAccess(mo, false)
		m.side[p] = &reflIter{it: &MapIter{m: mo}, mt: mt}
		*p = Struct{}
		return p
	})
	I["(*reflect.MapIter).Next"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		x := m.side[ptrOf(m, args[0])].(*reflIter)
		x.e = m.mapIterNext(x.it)
		return m.tb.Bool(x.e != nil)
	}
	I["(*reflect.MapIter).Key"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		x := m.side[ptrOf(m, args[0])].(*reflIter)
		return RVal{t: x.mt.Key(), v: copyVal(x.e.k)}
	}
	I["(*reflect.MapIter).Value"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		x := m.side[ptrOf(m, args[0])].(*reflIter)
		return RVal{t: x.mt.Elem(), v: copyVal(*x.e.cell)}
	}
	V("Bool", func(m *M, g *G, r RVal, a []Value) Value { m.mustKind(r, "Bool", 1); return m.rvGet(r) })
	V("Int", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Int", 2, 3, 4, 5, 6)
		return m.tb.SExt(m.rvGet(r).(*Term), 64)
	})
	V("Uint", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Uint", 7, 8, 9, 10, 11, 12)
		return m.tb.ZExt(m.rvGet(r).(*Term), 64)
	})
	V("Float", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Float", 13, 14)
		return m.numConv(r.t.Underlying(), types.Typ[types.Float64], m.rvGet(r).(*Term))
	})
	V("String", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		if kindOf(r.t) == 24 {
			return m.rvGet(r)
		}
		return Str{s: "<" + typeStr(r.t) + " Value>"}
	})
	can := func(ks ...int) func(m *M, g *G, r RVal, a []Value) Value {
		return func(m *M, g *G, r RVal, a []Value) Value {
			if r.t != nil {
				k := kindOf(r.t)
				for _, x := range ks {
					if x == k {
						return m.tb.True
					}
				}
			}
			return m.tb.False
		}
	}
	V("CanInt", can(2, 3, 4, 5, 6))
	V("CanUint", can(7, 8, 9, 10, 11, 12))
	V("CanFloat", can(13, 14))
	V("NumMethod", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.NumMethod on zero Value")
		}
		return m.i64(int64(len(m.exportedMethods(r.t))))
	})
	V("Method", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.Method on zero Value")
		}
		ms := m.exportedMethods(r.t)
		i := int(int64(m.concretize(a[0].(*Term), "method index")))
		if i < 0 || i >= len(ms) {
			m.panicStr("reflect: Method index out of range")
		}
		return m.methodVal(r, ms[i])
	})
	V("MethodByName", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.MethodByName on zero Value")
		}
		for _, s := range m.exportedMethods(r.t) {
			if m.branch(m.strEq(a[0].(Str), Str{s: s.Obj().Name()})) {
				return m.methodVal(r, s)
			}
		}
		return RVal{}
	})
	V("Call", func(m *M, g *G, r RVal, a []Value) Value {
		return m.rvCall(g, r, m.concSlice(a[0].(Slice), "Call arguments"))
	})
	V("Elem", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Elem", 20, 22)
		switch x := m.rvGet(r).(type) {
		case Iface:
			if x.t == nil {
				return RVal{}
			}
			return RVal{t: x.t, v: x.v}
		case *Value:
			if x == nil {
				return RVal{}
			}
			return RVal{t: r.t.Underlying().(*types.Pointer).Elem(), addr: x}
		}
		panic(engineError("reflect Elem"))
	})
	V("NumField", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "NumField", 25)
		return m.i64(int64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	V("Field", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "Field", 25)
		i := int(m.concretize(a[0].(*Term), "field"))
		f := r.t.Underlying().(*types.Struct).Field(i)
		if r.addr != nil {
			s := (*r.addr).(Struct)
			return RVal{t: f.Type(), addr: &s[i], ro: !f.Exported()}
		}
		return RVal{t: f.Type(), v: r.v.(Struct)[i], ro: !f.Exported()}
	})
	V("Addr", func(m *M, g *G, r RVal, a []Value) Value {
		if r.addr == nil {
			m.panicStr("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(r.t), v: r.addr}
	})
	V("Pointer", func(m *M, g *G, r RVal, a []Value) Value { m.unsupported("reflect.Value.Pointer"); return nil })
	set := func(m *M, r RVal, v Value) {
		if r.addr == nil || r.ro {
			m.panicStr("reflect: reflect.Value.Set using unaddressable value")
		}
		m.access(r.addr, true)
		m.storeCount++
		storeInto(r.addr, v)
	}
	V("Set", func(m *M, g *G, r RVal, a []Value) Value {
		x := rv(a[0])
		if x.t == nil {
			m.panicStr("reflect: call of reflect.Value.Set on zero Value")
		}
		set(m, r, m.assignTo("reflect.Set", x, r.t))
		return nil
	})
	V("SetInt", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "SetInt", 2, 3, 4, 5, 6)
		set(m, r, m.numConv(types.Typ[types.Int64], r.t.Underlying(), a[0].(*Term)))
		return nil
	})
	V("SetUint", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "SetUint", 7, 8, 9, 10, 11, 12)
		set(m, r, m.numConv(types.Typ[types.Uint64], r.t.Underlying(), a[0].(*Term)))
		return nil
	})
	V("SetFloat", func(m *M, g *G, r RVal, a []Value) Value {
		m.mustKind(r, "SetFloat", 13, 14)
		set(m, r, m.numConv(types.Typ[types.Float64], r.t.Underlying(), a[0].(*Term)))
		return nil
	})
	V("SetString", func(m *M, g *G, r RVal, a []Value) Value { m.mustKind(r, "SetString", 24); set(m, r, a[0]); return nil })
	V("SetBool", func(m *M, g *G, r RVal, a []Value) Value { m.mustKind(r, "SetBool", 1); set(m, r, a[0]); return nil })
	conv := func(m *M, r RVal, t types.Type) RVal {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.Convert on zero Value")
		}
		if !reflConvertible(r.t, t) {
			m.panicStr("reflect.Value.Convert: value of type " + typeStr(r.t) + " cannot be converted to type " + typeStr(t))
		}
		v := copyVal(m.rvGet(r))
		if kindOf(t) == 20 {
			if kindOf(r.t) == 20 {
				return RVal{t: t, v: v}
			}
			return RVal{t: t, v: Iface{r.t, v}}
		}
		if sl, ok := r.t.Underlying().(*types.Slice); ok {
			at, isArr := t.Underlying().(*types.Array)
			pt, isPtr := t.Underlying().(*types.Pointer)
			if isPtr {
				at = pt.Elem().Underlying().(*types.Array)
			}
			if isArr || isPtr {
				_ = sl
				a := m.concSlice(v.(Slice), "slice to array")
				n := int(at.Len())
				if len(a) < n {
					m.panicStr(fmt.Sprintf("reflect: cannot convert slice with length %d to array with length %d", len(a), n))
				}
				if isArr {
					return RVal{t: t, v: copyVal(Array(a[:n:n]))}
				}
				p := new(Value)
				*p = Array(a[:n:n])
				return RVal{t: t, v: p}
			}
		}
		return RVal{t: t, v: m.convert(r.t, t, v)}
	}
	V("Convert", func(m *M, g *G, r RVal, a []Value) Value { return conv(m, r, a[0].(Iface).v.(RType).t) })
	V("CanConvert", func(m *M, g *G, r RVal, a []Value) Value {
		if r.t == nil {
			m.panicStr("reflect: call of reflect.Value.Type on zero Value")
		}
		return m.tb.Bool(reflConvertible(r.t, a[0].(Iface).v.(RType).t))
	})
	ovf := func(sg bool) func(m *M, g *G, r RVal, a []Value) Value {
		return func(m *M, g *G, r RVal, a []Value) Value {
			x := a[0].(*Term)
			w := basicWidth(r.t.Underlying().(*types.Basic))
			tr := m.tb.Extract(x, w-1, 0)
			if sg {
				return m.tb.Not(m.tb.Eq(m.tb.SExt(tr, 64), x))
			}
			return m.tb.Not(m.tb.Eq(m.tb.ZExt(tr, 64), x))
		}
	}
	V("OverflowInt", ovf(true))
	V("OverflowUint", ovf(false))
	_ = strings.Join
}

type reflIter struct {
	it *MapIter
	mt *types.Map
	e  *mapEntry
}

// deepEq models reflect.DeepEqual for acyclic values.
func (m *M) deepEq(a, b Value, t types.Type, depth int) *Term {
	if depth > 20 {
		m.unsupported("deep DeepEqual")
	}
	tb := m.tb
	switch x := a.(type) {
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.False
		}
		return m.deepEq(x.v, y.v, x.t, depth+1)
	case Slice:
		y := b.(Slice)
		if isNilVal(x) != isNilVal(y) {
			return tb.False
		}
		xa, ya := m.concSlice(x, "DeepEqual"), m.concSlice(y, "DeepEqual")
		if len(xa) != len(ya) {
			return tb.False
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := tb.True
		for i := range xa {
			r = tb.And(r, m.deepEq(xa[i], ya[i], et, depth+1))
		}
		return r
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		r := tb.True
		for i := range x {
			r = tb.And(r, m.deepEq(x[i], b.(Array)[i], et, depth+1))
		}
		return r
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := tb.True
		for i := range x {
			r = tb.And(r, m.deepEq(x[i], b.(Struct)[i], st.Field(i).Type(), depth+1))
		}
		return r
	case *Value:
		y := b.(*Value)
		if x == nil || y == nil || x == y {
			return tb.Bool(x == y)
		}
		return m.deepEq(*x, *y, t.Underlying().(*types.Pointer).Elem(), depth+1)
	case *MapObj:
		y := b.(*MapObj)
		if (x == nil) != (y == nil) {
			return tb.False
		}
		if x == nil {
			return tb.True
		}
		if x.live != y.live {
			return tb.False
		}
		mt := t.Underlying().(*types.Map)
		r := tb.True
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := m.mapFind(y, mt.Key(), e.k)
			if f == nil {
				return tb.False
			}
			r = tb.And(r, m.deepEq(*e.cell, *f.cell, mt.Elem(), depth+1))
		}
		return r
	case *ssa.Function:
		return tb.Bool(x == nil && isNilVal(b))
	}
	return m.eq(t, a, b)
}
