package hferry

import (
	"reflect"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/zzverif/fakenet"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// world is a hub and a docks, all of them real.
type world struct{ net *fakenet.Net }

func newWorld() *world {
	w := &world{net: fakenet.Install()}
	w.net.ByHost = true
	w.net.Host = "10.0.0.100"
	go ferry.Serve(hubAddr)
	sym.Quiesce()
	return w
}

func (w *world) dock(host string, slots ...ferry.ISlot) {
	w.net.Host = host
	go ferry.Startup(hubAddr, host, slots...)
	sym.Quiesce()
}

// eq tells whether two values are equal whatever the width of their types.
func eq(a, b interface{}) bool {
	if a == nil || b == nil {
		return empty(a) && empty(b)
	}
	return eqv(reflect.ValueOf(a), reflect.ValueOf(b))
}

func empty(a interface{}) bool { return a == nil }

func cls(k reflect.Kind) int {
	switch k {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return 1
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return 2
	case reflect.Float32, reflect.Float64:
		return 3
	case reflect.Slice, reflect.Array:
		return 4
	}
	return 10 + int(k)
}

func eqv(a, b reflect.Value) bool {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	x, y := cls(a.Kind()), cls(b.Kind())
	switch {
	case x == 1 && y == 1:
		return a.Int() == b.Int()
	case x == 2 && y == 2:
		return a.Uint() == b.Uint()
	case x == 1 && y == 2:
		return sym.And(a.Int() >= 0, uint64(a.Int()) == b.Uint())
	case x == 2 && y == 1:
		return sym.And(b.Int() >= 0, uint64(b.Int()) == a.Uint())
	case x == 3 && y == 3:
		f, g := a.Float(), b.Float()
		return f == g || (f != f && g != g)
	case x == 4 && y == 4:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case x != y:
		return false
	case a.Kind() == reflect.String:
		return a.String() == b.String()
	case a.Kind() == reflect.Bool:
		return a.Bool() == b.Bool()
	case a.Kind() == reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			found := false
			for _, l := range b.MapKeys() {
				if eqv(k, l) {
					found = eqv(a.MapIndex(k), b.MapIndex(l))
				}
			}
			if !found {
				return false
			}
		}
		return true
	}
	sym.Fail("a value of an unexpected kind")
	return false
}

func eqs(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}
	return true
}
