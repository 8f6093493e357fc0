// Package hcodec states the codec properties over the public codec API.
package hcodec

import (
	"bytes"
	"errors"
	"io"
	"math"

	"github.com/muguangyi/ferry/codec"
	"github.com/muguangyi/ferry/zzverif/sym"
)

type (
	myInt    int16
	myUint   uint32
	myString string
	myBool   bool
	myFloat  float32
	mySlice  []int32
	myMap    map[string]uint16
)

// node is what a value must decode to, independent of Go types.
type node struct {
	kind byte // n b i u f s l m
	w    int  // width of integers and floats (8..64)
	b    bool
	i    int64
	u    uint64
	f    float64
	s    string
	list []*node
	keys []*node
}

func nInt(v int64, w int) *node   { return &node{kind: 'i', i: v, w: w} }
func nUint(v uint64, w int) *node { return &node{kind: 'u', u: v, w: w} }
func nStr(s string) *node         { return &node{kind: 's', s: s} }
func nFloat(f float64, w int) *node {
	return &node{kind: 'f', f: f, w: w}
}

var strLens = []int{0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537}

// C01Long: long strings; their first, last and one more byte are symbolic.
func C01Long() {
	lens := []int{255, 256, 65535, 65536, 65537, 131073, 1 << 24}
	n := lens[sym.Choose("len", sym.Param("lens"))]
	b := make([]byte, n)
	at := []int{0, n - 1, n / 2, 65536 % n, 65535 % n}
	for _, i := range at {
		b[i] = sym.Byte("v")
	}
	v := string(b)
	buf := encode(v)
	buf.WriteByte(sym.Byte("next"))
	r := codec.NewAny(nil)
	err := r.Decode(buf)
	sym.Assert(err == nil, "decoding a long string fails")
	sym.Assert(buf.Len() == 1, "decoding does not consume exactly the encoding of a long string")
	s, err := r.String()
	sym.Assert(err == nil, "String accessor fails on a long string")
	sym.Assert(len(s) == n, "a long string changes its length")
	for _, i := range at {
		sym.Assert(s[i] == b[i], "a long string changes a byte")
	}
	sym.Reach("end")
}

const nScalars = 21

// scalar returns the k-th kind of scalar holding a symbolic value.
func scalar(k int, maxStr int) (interface{}, *node) {
	switch k {
	case 0:
		return nil, &node{kind: 'n'}
	case 1:
		v := sym.Bool("v")
		return v, &node{kind: 'b', b: v}
	case 2:
		v := sym.Int8("v")
		return v, nInt(int64(v), 8)
	case 3:
		v := sym.Int16("v")
		return v, nInt(int64(v), 16)
	case 4:
		v := sym.Int32("v")
		return v, nInt(int64(v), 32)
	case 5:
		v := sym.Int64("v")
		return v, nInt(v, 64)
	case 6:
		v := sym.Int("v")
		return v, nInt(int64(v), 64)
	case 7:
		v := sym.Uint8("v")
		return v, nUint(uint64(v), 8)
	case 8:
		v := sym.Uint16("v")
		return v, nUint(uint64(v), 16)
	case 9:
		v := sym.Uint32("v")
		return v, nUint(uint64(v), 32)
	case 10:
		v := sym.Uint64("v")
		return v, nUint(v, 64)
	case 11:
		v := sym.Uint("v")
		return v, nUint(uint64(v), 64)
	case 12:
		v := sym.Float32("v")
		return v, nFloat(float64(v), 32)
	case 13:
		v := sym.Float64("v")
		return v, nFloat(v, 64)
	case 14:
		n := strLens[sym.Choose("strlen", maxStr)]
		v := sym.String("v", n)
		return v, nStr(v)
	case 15:
		v := myInt(sym.Int16("v"))
		return v, nInt(int64(v), 16)
	case 16:
		v := myUint(sym.Uint32("v"))
		return v, nUint(uint64(v), 32)
	case 17:
		v := myString(sym.String("v", sym.Choose("strlen", 3)))
		return v, nStr(string(v))
	case 18:
		v := myBool(sym.Bool("v"))
		return v, &node{kind: 'b', b: bool(v)}
	case 19:
		v := myFloat(sym.Float32("v"))
		return v, nFloat(float64(v), 32)
	case 20:
		v := uintptr(sym.Uint64("v"))
		return v, nUint(uint64(v), 64)
	}
	panic("kind")
}

// sameFloat: equal as numbers, or both not a number.
func sameFloat(a, b float64) bool {
	return sym.Or(math.Float64bits(a) == math.Float64bits(b), sym.And(a != a, b != b))
}

// checkNode asserts that x (a decoded value) is the value n stands for.
func checkNode(n *node, x interface{}, what string) {
	switch n.kind {
	case 'n':
		sym.Assert(x == nil, what+": nil decodes to something else")
	case 'b':
		v, ok := x.(bool)
		sym.Assert(ok, what+": bool decodes to another kind")
		sym.Assert(v == n.b, what+": bool changes its value")
	case 'i':
		v, ok := asInt(x)
		sym.Assert(ok, what+": signed integer decodes to another kind")
		sym.Assert(v == n.i, what+": signed integer changes its value")
	case 'u':
		v, ok := asUint(x)
		sym.Assert(ok, what+": unsigned integer decodes to another kind")
		sym.Assert(v == n.u, what+": unsigned integer changes its value")
	case 'f':
		v, ok := asFloat(x)
		sym.Assert(ok, what+": float decodes to another kind")
		sym.Assert(sameFloat(v, n.f), what+": float changes its value")
	case 's':
		v, ok := x.(string)
		sym.Assert(ok, what+": string decodes to another kind")
		sym.Assert(v == n.s, what+": string changes its value")
	case 'l':
		v, ok := x.([]interface{})
		sym.Assert(ok, what+": list decodes to another kind")
		sym.Assert(len(v) == len(n.list), what+": list changes its length")
		for i := range n.list {
			checkNode(n.list[i], v[i], what)
		}
	case 'm':
		v, ok := x.(map[interface{}]interface{})
		sym.Assert(ok, what+": map decodes to another kind")
		sym.Assert(len(v) == len(n.keys), what+": map changes its number of entries")
		for i := range n.keys {
			e, ok := find(v, n.keys[i])
			sym.Assert(ok, what+": map loses a key")
			checkNode(n.list[i], e, what)
		}
	}
}

func asInt(x interface{}) (int64, bool) {
	switch v := x.(type) {
	case int8:
		return int64(v), true
	case int16:
		return int64(v), true
	case int32:
		return int64(v), true
	case int64:
		return v, true
	case int:
		return int64(v), true
	}
	return 0, false
}

func asUint(x interface{}) (uint64, bool) {
	switch v := x.(type) {
	case uint8:
		return uint64(v), true
	case uint16:
		return uint64(v), true
	case uint32:
		return uint64(v), true
	case uint64:
		return v, true
	case uint:
		return uint64(v), true
	}
	return 0, false
}

func asFloat(x interface{}) (float64, bool) {
	switch v := x.(type) {
	case float32:
		return float64(v), true
	case float64:
		return v, true
	}
	return 0, false
}

func find(m map[interface{}]interface{}, k *node) (interface{}, bool) {
	for mk, mv := range m {
		switch k.kind {
		case 'i':
			if v, ok := asInt(mk); ok && v == k.i {
				return mv, true
			}
		case 'u':
			if v, ok := asUint(mk); ok && v == k.u {
				return mv, true
			}
		case 's':
			if v, ok := mk.(string); ok && v == k.s {
				return mv, true
			}
		case 'b':
			if v, ok := mk.(bool); ok && v == k.b {
				return mv, true
			}
		case 'f':
			if v, ok := asFloat(mk); ok && v == k.f {
				return mv, true
			}
		case 'n':
			if mk == nil {
				return mv, true
			}
		}
	}
	return nil, false
}

func encode(v interface{}) *bytes.Buffer {
	buf := &bytes.Buffer{}
	err := codec.NewAny(v).Encode(buf)
	sym.Assert(err == nil, "encoding fails on a working writer")
	return buf
}

// checkAccessors: the accessor of the original's width and every wider one of
// the same signedness return the value unchanged.
func checkAccessors(a codec.IAny, n *node) {
	switch n.kind {
	case 'n':
		sym.Assert(a.Any() == nil, "nil does not survive")
	case 'b':
		v, err := a.Bool()
		sym.Assert(err == nil, "Bool accessor fails after a round trip")
		sym.Assert(v == n.b, "Bool accessor: other value after a round trip")
	case 's':
		v, err := a.String()
		sym.Assert(err == nil, "String accessor fails after a round trip")
		sym.Assert(v == n.s, "String accessor: other value after a round trip")
	case 'i':
		if n.w <= 8 {
			v, err := a.Int8()
			sym.Assert(err == nil, "Int8 accessor fails after a round trip")
			sym.Assert(int64(v) == n.i, "Int8 accessor: other value after a round trip")
		}
		if n.w <= 16 {
			v, err := a.Int16()
			sym.Assert(err == nil, "Int16 accessor fails after a round trip")
			sym.Assert(int64(v) == n.i, "Int16 accessor: other value after a round trip")
		}
		if n.w <= 32 {
			v, err := a.Int32()
			sym.Assert(err == nil, "Int32 accessor fails after a round trip")
			sym.Assert(int64(v) == n.i, "Int32 accessor: other value after a round trip")
		}
		v, err := a.Int64()
		sym.Assert(err == nil, "Int64 accessor fails after a round trip")
		sym.Assert(v == n.i, "Int64 accessor: other value after a round trip")
		w, err := a.Int()
		sym.Assert(err == nil, "Int accessor fails after a round trip")
		sym.Assert(int64(w) == n.i, "Int accessor: other value after a round trip")
	case 'u':
		if n.w <= 8 {
			v, err := a.Uint8()
			sym.Assert(err == nil, "Uint8 accessor fails after a round trip")
			sym.Assert(uint64(v) == n.u, "Uint8 accessor: other value after a round trip")
		}
		if n.w <= 16 {
			v, err := a.Uint16()
			sym.Assert(err == nil, "Uint16 accessor fails after a round trip")
			sym.Assert(uint64(v) == n.u, "Uint16 accessor: other value after a round trip")
		}
		if n.w <= 32 {
			v, err := a.Uint32()
			sym.Assert(err == nil, "Uint32 accessor fails after a round trip")
			sym.Assert(uint64(v) == n.u, "Uint32 accessor: other value after a round trip")
		}
		v, err := a.Uint64()
		sym.Assert(err == nil, "Uint64 accessor fails after a round trip")
		sym.Assert(v == n.u, "Uint64 accessor: other value after a round trip")
		w, err := a.Uint()
		sym.Assert(err == nil, "Uint accessor fails after a round trip")
		sym.Assert(uint64(w) == n.u, "Uint accessor: other value after a round trip")
	case 'f':
		if n.w == 32 {
			v, err := a.Float32()
			sym.Assert(err == nil, "Float32 accessor fails after a round trip")
			sym.Assert(sameFloat(float64(v), n.f), "Float32 accessor: other value after a round trip")
		}
		v, err := a.Float64()
		sym.Assert(err == nil, "Float64 accessor fails after a round trip")
		sym.Assert(sameFloat(v, n.f), "Float64 accessor: other value after a round trip")
	}
}

// C01Scalar: one scalar of every kind, all bit patterns, followed by foreign bytes.
func C01Scalar() {
	v, n := scalar(sym.Choose("kind", nScalars), sym.Param("strlens"))
	buf := encode(v)
	buf.WriteByte(sym.Byte("next"))
	r := codec.NewAny(nil)
	err := r.Decode(buf)
	sym.Assert(err == nil, "decoding an encoded scalar fails")
	sym.Assert(buf.Len() == 1, "decoding does not consume exactly the encoding")
	checkAccessors(r, n)
	checkNode(n, r.Any(), "scalar")
	sym.Reach("end")
}

var seqKinds = []int{0, 1, 5, 10, 13, 14, 2, 8}

// C01Stream: several values written one after another are read back one after another,
// also into one and the same object.
func C01Stream() {
	k := sym.Param("count")
	buf := &bytes.Buffer{}
	var ns []*node
	for i := 0; i < k; i++ {
		v, n := scalar(seqKinds[sym.Choose("kind", sym.Param("kinds"))], 3)
		err := codec.NewAny(v).Encode(buf)
		sym.Assert(err == nil, "encoding a scalar fails on a working writer")
		ns = append(ns, n)
	}
	r := codec.NewAny(nil)
	for i := 0; i < k; i++ {
		err := r.Decode(buf)
		sym.Assert(err == nil, "decoding a value of a stream fails")
		checkAccessors(r, ns[i])
	}
	sym.Assert(buf.Len() == 0, "bytes are left after the last value")
	sym.Reach("end")
}

// ---- containers

const nShapes = 28

// elemKinds are the scalar kinds used inside containers.
var elemKinds = []int{5, 14, 0, 13, 10, 1, 6, 12}

func smallScalar() (interface{}, *node) {
	return scalar(elemKinds[sym.Choose("elem", sym.Param("elems"))], 2)
}

// shape builds the k-th container shape with cnt elements.
func shape(k, cnt int) (interface{}, *node) {
	n := &node{kind: 'l'}
	mp := &node{kind: 'm'}
	switch k {
	case 0:
		a := []interface{}{}
		for i := 0; i < cnt; i++ {
			v, x := smallScalar()
			a, n.list = append(a, v), append(n.list, x)
		}
		return a, n
	case 1:
		a := []int16{}
		for i := 0; i < cnt; i++ {
			v := sym.Int16("e")
			a, n.list = append(a, v), append(n.list, nInt(int64(v), 16))
		}
		return a, n
	case 2:
		a := []string{}
		for i := 0; i < cnt; i++ {
			v := sym.String("e", i)
			a, n.list = append(a, v), append(n.list, nStr(v))
		}
		return a, n
	case 3:
		a := mySlice{}
		for i := 0; i < cnt; i++ {
			v := sym.Int32("e")
			a, n.list = append(a, v), append(n.list, nInt(int64(v), 32))
		}
		return a, n
	case 4:
		v, w := sym.Uint8("e"), sym.Uint8("e")
		n.list = []*node{nUint(uint64(v), 8), nUint(uint64(w), 8)}
		return [2]uint8{v, w}, n
	case 5:
		a := []float32{}
		for i := 0; i < cnt; i++ {
			v := sym.Float32("e")
			a, n.list = append(a, v), append(n.list, nFloat(float64(v), 32))
		}
		return a, n
	case 6:
		var a []int
		return a, n
	case 7:
		a := []uint64{}
		for i := 0; i < cnt; i++ {
			v := sym.Uint64("e")
			a, n.list = append(a, v), append(n.list, nUint(v, 64))
		}
		return a, n
	case 8:
		a := []bool{}
		for i := 0; i < cnt; i++ {
			v := sym.Bool("e")
			a, n.list = append(a, v), append(n.list, &node{kind: 'b', b: v})
		}
		return a, n
	case 9:
		a := []interface{}{}
		for i := 0; i < cnt; i++ {
			v, x := shape(sym.Choose("inner", 3), i)
			a, n.list = append(a, v), append(n.list, x)
		}
		return a, n
	case 10:
		a := [][]int64{}
		for i := 0; i < cnt; i++ {
			v := sym.Int64("e")
			a = append(a, []int64{v})
			n.list = append(n.list, &node{kind: 'l', list: []*node{nInt(v, 64)}})
		}
		return a, n
	case 11:
		m := map[string]int32{}
		for i := 0; i < cnt; i++ {
			k, v := keyStr(i), sym.Int32("e")
			m[k] = v
			mp.keys, mp.list = append(mp.keys, nStr(k)), append(mp.list, nInt(int64(v), 32))
		}
		return m, mp
	case 12:
		m := map[int]interface{}{}
		var ks []int
		for i := 0; i < cnt; i++ {
			k := sym.Int("k")
			for _, o := range ks {
				sym.Assume(k != o)
			}
			ks = append(ks, k)
			v, x := smallScalar()
			m[k] = v
			mp.keys, mp.list = append(mp.keys, nInt(int64(k), 64)), append(mp.list, x)
		}
		return m, mp
	case 13:
		m := map[interface{}]interface{}{}
		for i := 0; i < cnt; i++ {
			switch i {
			case 0:
				k, v := sym.Int16("k"), sym.String("e", 1)
				m[k] = v
				mp.keys, mp.list = append(mp.keys, nInt(int64(k), 16)), append(mp.list, nStr(v))
			case 1:
				k, v := sym.String("k", 1), sym.Int64("e")
				m[k] = v
				mp.keys, mp.list = append(mp.keys, nStr(k)), append(mp.list, nInt(v, 64))
			case 2:
				k := sym.Uint64("k")
				m[k] = nil
				mp.keys, mp.list = append(mp.keys, nUint(k, 64)), append(mp.list, &node{kind: 'n'})
			}
		}
		return m, mp
	case 14:
		var m map[string]string
		return m, mp
	case 15:
		m := myMap{}
		for i := 0; i < cnt; i++ {
			k, v := keyStr(i), sym.Uint16("e")
			m[k] = v
			mp.keys, mp.list = append(mp.keys, nStr(k)), append(mp.list, nUint(uint64(v), 16))
		}
		return m, mp
	case 16:
		m := map[bool]float64{}
		for i := 0; i < cnt && i < 2; i++ {
			v := sym.Float64("e")
			m[i == 0] = v
			mp.keys, mp.list = append(mp.keys, &node{kind: 'b', b: i == 0}), append(mp.list, nFloat(v, 64))
		}
		return m, mp
	case 17:
		m := map[uint8][]string{}
		var ks []uint8
		for i := 0; i < cnt && i < 2; i++ {
			k, v := sym.Uint8("k"), sym.String("e", i)
			for _, o := range ks {
				sym.Assume(k != o)
			}
			ks = append(ks, k)
			m[k] = []string{v}
			mp.keys = append(mp.keys, nUint(uint64(k), 8))
			mp.list = append(mp.list, &node{kind: 'l', list: []*node{nStr(v)}})
		}
		return m, mp
	case 18:
		m := map[string]map[string]int{}
		for i := 0; i < cnt && i < 2; i++ {
			k, v := keyStr(i), sym.Int("e")
			m[k] = map[string]int{"x": v}
			mp.keys = append(mp.keys, nStr(k))
			mp.list = append(mp.list, &node{kind: 'm', keys: []*node{nStr("x")}, list: []*node{nInt(int64(v), 64)}})
		}
		return m, mp
	case 19:
		a := []interface{}{}
		for i := 0; i < cnt && i < 2; i++ {
			m := map[string]interface{}{}
			v, x := smallScalar()
			m["k"] = v
			a = append(a, m)
			n.list = append(n.list, &node{kind: 'm', keys: []*node{nStr("k")}, list: []*node{x}})
		}
		return a, n
	case 20:
		a := []myString{}
		for i := 0; i < cnt; i++ {
			v := myString(sym.String("e", 1))
			a, n.list = append(a, v), append(n.list, nStr(string(v)))
		}
		return a, n
	case 21:
		m := map[float64]int8{}
		if cnt > 0 {
			k, v := sym.Float64("k"), sym.Int8("e")
			sym.Assume(k == k)
			m[k] = v
			mp.keys, mp.list = append(mp.keys, nFloat(k, 64)), append(mp.list, nInt(int64(v), 8))
		}
		return m, mp
	}
	switch k {
	case 22: // nil of several kinds as elements
		var l []string
		var m map[string]int
		var e interface{}
		all := []interface{}{nil, l, m, e}
		ns := []*node{{kind: 'n'}, {kind: 'l'}, {kind: 'm'}, {kind: 'n'}}
		i := sym.Choose("nil", 4)
		v := sym.Uint16("e")
		n.list = []*node{ns[i], nUint(uint64(v), 16)}
		return []interface{}{all[i], v}, n
	case 23: // nil as a value and as a key
		v := sym.Int8("e")
		if sym.Choose("key", 2) == 1 {
			mp.keys, mp.list = []*node{{kind: 'n'}}, []*node{nInt(int64(v), 8)}
			return map[interface{}]interface{}{nil: v}, mp
		}
		m := map[string]interface{}{"a": nil}
		mp.keys, mp.list = []*node{nStr("a")}, []*node{{kind: 'n'}}
		if cnt > 0 {
			m["b"] = v
			mp.keys, mp.list = append(mp.keys, nStr("b")), append(mp.list, nInt(int64(v), 8))
		}
		return m, mp
	case 24: // three levels
		v, x := smallScalar()
		in := &node{kind: 'm', keys: []*node{nStr("k")}, list: []*node{{kind: 'l', list: []*node{x, {kind: 'l'}}}}}
		n.list = []*node{in, {kind: 'm'}, {kind: 'n'}}
		return []interface{}{map[string][]interface{}{"k": {v, []int{}}}, map[string]int{}, nil}, n
	case 25:
		b := sym.Bytes("e", cnt)
		for _, v := range b {
			n.list = append(n.list, nUint(uint64(v), 8))
		}
		return b, n
	case 26:
		v, w := sym.Int16("e"), sym.String("e", 1)
		n.list = []*node{
			{kind: 'l', list: []*node{nInt(int64(v), 16), nInt(0, 16)}},
			{kind: 'l', list: []*node{nInt(1, 16), nInt(int64(v), 16)}}}
		if sym.Choose("array", 2) == 1 {
			n.list = []*node{nStr(w), nStr(""), nStr("x")}
			return [3]string{w, "", "x"}, n
		}
		return [2][2]int16{{v, 0}, {1, v}}, n
	case 27: // uintptr and named elements, inside and outside of interfaces
		u, i, s := uintptr(sym.Uint64("e")), myInt(sym.Int16("e")), myString(sym.String("e", 1))
		n.list = []*node{nUint(uint64(u), 64), nInt(int64(i), 16), nStr(string(s))}
		if sym.Choose("typed", 2) == 1 {
			n.list = []*node{nUint(uint64(u), 64), nUint(1, 64)}
			return []uintptr{u, 1}, n
		}
		return []interface{}{u, i, s}, n
	}
	panic("shape")
}

func keyStr(i int) string { return sym.String("k", i+1) }

// C02Container: every container shape survives a round trip.
func C02Container() {
	v, n := shape(sym.Choose("shape", nShapes), sym.Choose("count", sym.Param("count")+1))
	buf := encode(v)
	buf.WriteByte(0xc0)
	r := codec.NewAny(nil)
	err := r.Decode(buf)
	sym.Assert(err == nil, "decoding an encoded container fails")
	sym.Assert(buf.Len() == 1, "decoding a container does not consume exactly the encoding")
	checkNode(n, r.Any(), "container")
	if n.kind == 'l' {
		l, err := r.Arr()
		sym.Assert(err == nil && len(l) == len(n.list), "Arr accessor fails on a decoded list")
	} else {
		m, err := r.Map()
		sym.Assert(err == nil && len(m) == len(n.keys), "Map accessor fails on a decoded map")
	}
	sym.Reach("end")
}

// C02LongMap: a map with many entries.
func C02LongMap() {
	sym.MapOrder(false)
	lens := []int{255, 256, 257, 70000}
	k := lens[sym.Choose("len", sym.Param("lens"))]
	m := map[int]interface{}{}
	for i := 0; i < k; i++ {
		m[i] = nil
	}
	x := sym.Int64("x")
	m[k-1] = x
	buf := encode(m)
	r := codec.NewAny(nil)
	err := r.Decode(buf)
	sym.Assert(err == nil, "decoding a large map fails")
	sym.Assert(buf.Len() == 0, "decoding a large map leaves bytes")
	d, err := r.Map()
	sym.Assert(err == nil, "Map fails on a large map")
	sym.Assert(len(d) == k, "a large map changes its number of entries")
	n := 0
	for _, v := range d {
		if v != nil {
			u, ok := asInt(v)
			sym.Assert(ok && u == x, "a large map changes an entry")
			n++
		}
	}
	sym.Assert(n == 1, "a large map changes an entry")
	sym.Reach("end")
}

// C02Long: a list with many elements (the count needs more than one length byte).
func C02Long() {
	lens := []int{255, 256, 65536, 257, 300, 65535}
	k := lens[sym.Choose("len", sym.Param("lens"))]
	a := make([]interface{}, k)
	var x int64
	var y uint64
	if k < 1000 {
		x, y = sym.Int64("x"), sym.Uint64("y")
		a[0], a[k-1] = x, y
	} else {
		v, w := sym.Int8("x"), sym.Uint8("y")
		a[0], a[k-1] = v, w
		x, y = int64(v), uint64(w)
	}
	buf := encode(a)
	r := codec.NewAny(nil)
	err := r.Decode(buf)
	sym.Assert(err == nil, "decoding a long list fails")
	sym.Assert(buf.Len() == 0, "decoding a long list leaves bytes")
	l, err := r.Arr()
	sym.Assert(err == nil, "Arr fails on a long list")
	sym.Assert(len(l) == k, "a long list changes its length")
	u, ok := asInt(l[0])
	sym.Assert(ok && u == x, "a long list changes its first element")
	w, ok := asUint(l[k-1])
	sym.Assert(ok && w == y, "a long list changes its last element")
	sym.Assert(l[1] == nil && l[k-2] == nil, "a long list changes an inner element")
	sym.Reach("end")
}

// ---- hostile input

const allocLimit = 1 << 20

// C03Free: any byte string of n bytes.
func C03Free() {
	sym.AllocLimit(allocLimit)
	b := sym.Bytes("b", sym.Choose("n", sym.Param("n")+1))
	held := sym.Int16("held")
	r := codec.NewAny(held)
	var err error
	sym.CheckAlloc(func() { err = r.Decode(bytes.NewReader(b)) })
	useAll(r)
	if err != nil {
		v, e := r.Int16()
		sym.Assert(e == nil && v == held, "a failed decode damages the value held before")
		x, ok := r.Any().(int16)
		sym.Assert(ok && x == held, "a failed decode damages the value held before")
		sym.Reach("error")
	} else {
		sym.Reach("value")
	}
}

// C03Header: container and string headers with arbitrary length prefix followed by arbitrary bytes.
func C03Header() {
	sym.AllocLimit(allocLimit)
	heads := []byte{0xdb, 0xdd, 0xdf}
	n := sym.Param("n")
	b := append([]byte{heads[sym.Choose("head", 3)]}, sym.Bytes("b", 4+n)...)
	// at most one more container level
	r := codec.NewAny("held")
	var err error
	sym.CheckAlloc(func() { err = r.Decode(bytes.NewReader(b)) })
	useAll(r)
	if err != nil {
		v, e := r.String()
		sym.Assert(e == nil && v == "held" && r.Any() == "held", "a failed decode damages the value held before")
	}
	sym.Reach("end")
}

// C03Key: a map whose key is of any kind, also a list or a map.
func C03Key() {
	sym.AllocLimit(allocLimit)
	var buf []byte
	buf = append(buf, 0xdf, 0, 0, 0, 1)
	heads := []byte{0xdd, 0xdf, 0xdb, 0xca, 0xcb, 0xc0}
	h := heads[sym.Choose("key", len(heads))]
	buf = append(buf, h)
	buf = append(buf, sym.Bytes("b", sym.Param("n"))...)
	r := codec.NewAny(true)
	var err error
	sym.CheckAlloc(func() { err = r.Decode(bytes.NewReader(buf)) })
	useAll(r)
	if err != nil {
		v, e := r.Bool()
		sym.Assert(e == nil && v && r.Any() == true, "a failed decode damages the value held before")
	}
	sym.Reach("end")
}

// C03Nested: a list that holds a container with arbitrary header.
func C03Nested() {
	sym.AllocLimit(allocLimit)
	heads := []byte{0xdb, 0xdd, 0xdf, 0xca, 0xcb}
	outer := []byte{0xdd, 0xdf}
	buf := []byte{outer[sym.Choose("outer", 2)], 0, 0, 0, 1}
	if buf[0] == 0xdf {
		buf = append(buf, 0xc0)
	}
	buf = append(buf, heads[sym.Choose("head", len(heads))])
	buf = append(buf, sym.Bytes("b", sym.Param("n"))...)
	r := codec.NewAny(nil)
	sym.CheckAlloc(func() { r.Decode(bytes.NewReader(buf)) })
	useAll(r)
	sym.Reach("end")
}

// useAll calls every accessor; none may panic whatever the object holds.
func useAll(a codec.IAny) {
	a.Any()
	a.Bool()
	a.String()
	a.Int()
	a.Int8()
	a.Int16()
	a.Int32()
	a.Int64()
	a.Uint()
	a.Uint8()
	a.Uint16()
	a.Uint32()
	a.Uint64()
	a.Float32()
	a.Float64()
	a.Arr()
	a.Map()
}

// anything is a scalar or a container.
func anything() (interface{}, *node) {
	if sym.Choose("container", 2) == 0 {
		return scalar(sym.Choose("kind", 15), 3)
	}
	return shape(sym.Choose("shape", nShapes), sym.Choose("count", sym.Param("count")+1))
}

// C03Collide: keys that differ in Go but not in their encoding.
func C03Collide() {
	m := map[interface{}]interface{}{}
	a, b := sym.Uint8("a"), sym.Uint16("b")
	switch sym.Choose("keys", 3) {
	case 0:
		m[a], m[b] = int8(1), uint16(300)
	case 1:
		m[int8(a)], m[int32(b)], m["k"] = true, nil, "v"
	case 2:
		m[uint64(a)], m[uint(b)] = []bool{true}, map[string]int{"x": 1}
	}
	data := encode(m).Bytes()
	held := sym.Uint32("held")
	r := codec.NewAny(held)
	err := r.Decode(bytes.NewReader(data[:sym.Choose("cut", len(data))]))
	sym.Assert(err != nil, "a truncated encoding decodes to a value")
	h, e := r.Uint32()
	sym.Assert(e == nil && h == held, "a truncated encoding damages the value held before")
	rest := bytes.NewReader(append(append([]byte(nil), data...), 0xc3))
	if r.Decode(rest) == nil {
		sym.Assert(rest.Len() == 1, "decoding does not consume exactly the encoding")
		sym.Reach("end")
	}
}

// C03Truncated: every proper prefix of a valid encoding decodes to an error.
func C03Truncated() {
	v, _ := anything()
	b := encode(v).Bytes()
	cut := sym.Choose("cut", len(b))
	held := sym.Uint32("held")
	r := codec.NewAny(held)
	err := r.Decode(bytes.NewReader(b[:cut]))
	sym.Assert(err != nil, "a truncated encoding decodes to a value")
	useAll(r)
	h, e := r.Uint32()
	sym.Assert(e == nil && h == held, "a truncated encoding damages the value held before")
	x, ok := r.Any().(uint32)
	sym.Assert(ok && x == held, "a truncated encoding damages the value held before")
	sym.Reach("end")
}

// ---- fragmentation

// fragReader hands out its bytes in chunks chosen by the engine.
type fragReader struct {
	data []byte
	eof  bool // report the end together with the last bytes
	max  int
	left int // short reads left
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(f.data) < n {
		n = len(f.data)
	}
	if n > 1 && f.left > 0 {
		m := n
		if n <= f.max {
			n = 1 + sym.Choose("chunk", n)
		} else {
			switch sym.Choose("chunk", 4) {
			case 0:
				n = 1
			case 1:
				n = n / 2
			case 2:
				n = n - 1
			}
		}
		if n < m {
			f.left--
		}
	}
	copy(p, f.data[:n])
	f.data = f.data[n:]
	if f.eof && len(f.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// C04Scalar: scalars through every fragmentation.
func C04Scalar() {
	v, n := scalar(sym.Choose("kind", 15), sym.Param("strlens"))
	fragmented(v, n, sym.Param("short"))
}

// C04Container: containers through every fragmentation.
func C04Container() {
	k := sym.Choose("shape", nShapes)
	short := sym.Param("short")
	if k == 24 && short > 1 {
		short = 1
	}
	v, n := shape(k, sym.Choose("count", sym.Param("count")+1))
	fragmented(v, n, short)
}

func fragmented(v interface{}, n *node, short int) {
	b := encode(v).Bytes()
	whole := len(b)
	if sym.Choose("truncated", 2) == 1 {
		if whole > 12 {
			whole = whole - 1 - sym.Choose("cut", 5)
		} else {
			whole = sym.Choose("cut", whole)
		}
	}
	r := codec.NewAny(nil)
	f := &fragReader{data: b[:whole], eof: sym.Choose("eof", 2) == 1, max: sym.Param("max"), left: short}
	err := r.Decode(f)
	if whole < len(b) {
		sym.Assert(err != nil, "a fragmented truncated encoding decodes to a value")
		sym.Reach("truncated")
		return
	}
	sym.Assert(err == nil, "a fragmented encoding does not decode")
	checkNode(n, r.Any(), "fragmented")
	sym.Assert(len(f.data) == 0, "decoding a fragmented encoding leaves bytes")
	sym.Reach("whole")
}

// ---- failing writers

type failWriter struct {
	buf   []byte
	left  int // writes before the failing one
	part  int // bytes accepted by the failing write
	hit   bool
	calls int
}

var errWrite = errors.New("write failed")

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.left == 0 && !w.hit {
		w.hit = true
		n := 0
		if w.part == 1 && len(p) > 1 {
			n = len(p) / 2
		}
		if w.part == 2 && len(p) > 0 {
			n = len(p) - 1
		}
		w.buf = append(w.buf, p[:n]...)
		return n, errWrite
	}
	w.left--
	w.buf = append(w.buf, p...)
	return len(p), nil
}

// C05Write: one write fails at an arbitrary place; later ones work again.
func C05Write() {
	v, _ := anything()
	sym.MapOrder(false)
	full := encode(v).Bytes()
	w := &failWriter{left: sym.Choose("failing write", sym.Param("writes")), part: sym.Choose("part", 3)}
	err := codec.NewAny(v).Encode(w)
	if w.hit {
		sym.Assert(err != nil, "a failed write is not reported")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "encoding fails although every write worked")
	sym.Assert(sym.BytesEq(w.buf, full), "the destination did not get the complete encoding")
	sym.Reach("worked")
}

// C05MapOrder: a map encodes completely in every iteration order.
func C05MapOrder() {
	v, n := shape(11+sym.Choose("shape", 11), 2)
	w := &failWriter{left: -1}
	err := codec.NewAny(v).Encode(w)
	sym.Assert(err == nil, "encoding fails although every write worked")
	r := codec.NewAny(nil)
	err = r.Decode(bytes.NewReader(w.buf))
	sym.Assert(err == nil, "the destination did not get a complete encoding")
	checkNode(n, r.Any(), "written")
	sym.Reach("end")
}

// ---- accessors

func fits(v int64, bits uint) bool {
	lo := int64(-1) << (bits - 1)
	return sym.And(v >= lo, v <= -(lo+1))
}

func fitsU(v uint64, bits uint) bool { return v <= ^uint64(0)>>(64-bits) }

// C06Accessors: every accessor on every kind of source.
func C06Accessors() {
	var v interface{}
	var n *node
	if sym.Choose("container", 2) == 0 {
		v, n = scalar(sym.Choose("kind", nScalars), 3)
	} else {
		v, n = shape(sym.Choose("shape", nShapes), sym.Choose("count", sym.Param("count")+1))
	}
	a := codec.NewAny(v)
	if sym.Choose("decoded", 2) == 1 {
		a = codec.NewAny(sym.Choose("before", 2) == 1)
		err := a.Decode(encode(v))
		sym.Assert(err == nil, "decoding an encoding fails")
		sym.Reach("decoded")
	} else {
		if n.kind != 'l' && n.kind != 'm' && n.kind != 'f' {
			sym.Assert(a.Any() == v, "Any does not return the wrapped value")
		}
		sym.Reach("fresh")
	}

	b, err := a.Bool()
	sym.Assert((err == nil) == (n.kind == 'b'), "Bool accessor succeeds on other kinds or fails on its own")
	if err == nil {
		sym.Assert(b == n.b, "Bool accessor changes the value")
	}
	s, err := a.String()
	sym.Assert((err == nil) == (n.kind == 's'), "String accessor succeeds on other kinds or fails on its own")
	if err == nil {
		sym.Assert(s == n.s, "String accessor changes the value")
	}
	l, err := a.Arr()
	sym.Assert((err == nil) == (n.kind == 'l'), "Arr accessor succeeds on other kinds or fails on its own")
	if err == nil {
		sym.Assert(len(l) == len(n.list), "Arr accessor changes the number of elements")
		if len(l) > 0 && n.list[0].kind != 'l' && n.list[0].kind != 'm' {
			checkScalarAny(n.list[0], l[0])
		}
	}
	mm, err := a.Map()
	sym.Assert((err == nil) == (n.kind == 'm'), "Map accessor succeeds on other kinds or fails on its own")
	if err == nil {
		sym.Assert(len(mm) == len(n.keys), "Map accessor changes the number of entries")
		for i := range n.keys {
			_, ok := find(mm, n.keys[i])
			sym.Assert(ok, "Map accessor loses a key")
		}
	}

	sgn, uns, flt := n.kind == 'i', n.kind == 'u', n.kind == 'f'
	i0, err := a.Int()
	sym.Assert((err == nil) == sgn, "Int accessor succeeds on other kinds or fails on its own")
	i8, err := a.Int8()
	sym.Assert((err == nil) == sgn || (sgn && !fits(n.i, 8)), "Int8 accessor succeeds on other kinds or fails on its own")
	e8 := err
	i16, err := a.Int16()
	sym.Assert((err == nil) == sgn || (sgn && !fits(n.i, 16)), "Int16 accessor succeeds on other kinds or fails on its own")
	e16 := err
	i32, err := a.Int32()
	sym.Assert((err == nil) == sgn || (sgn && !fits(n.i, 32)), "Int32 accessor succeeds on other kinds or fails on its own")
	e32 := err
	i64, err := a.Int64()
	sym.Assert((err == nil) == sgn, "Int64 accessor succeeds on other kinds or fails on its own")
	if sgn {
		sym.Assert(int64(i0) == n.i, "Int accessor changes the value")
		sym.Assert(i64 == n.i, "Int64 accessor changes the value")
		if e8 == nil {
			sym.Assert(sym.Implies(fits(n.i, 8), int64(i8) == n.i), "Int8 accessor changes a representable value")
		}
		if e16 == nil {
			sym.Assert(sym.Implies(fits(n.i, 16), int64(i16) == n.i), "Int16 accessor changes a representable value")
		}
		if e32 == nil {
			sym.Assert(sym.Implies(fits(n.i, 32), int64(i32) == n.i), "Int32 accessor changes a representable value")
		}
		sym.Reach("signed")
	}
	u0, err := a.Uint()
	sym.Assert((err == nil) == uns, "Uint accessor succeeds on other kinds or fails on its own")
	u8, err := a.Uint8()
	sym.Assert((err == nil) == uns || (uns && !fitsU(n.u, 8)), "Uint8 accessor succeeds on other kinds or fails on its own")
	e8 = err
	u16, err := a.Uint16()
	sym.Assert((err == nil) == uns || (uns && !fitsU(n.u, 16)), "Uint16 accessor succeeds on other kinds or fails on its own")
	e16 = err
	u32, err := a.Uint32()
	sym.Assert((err == nil) == uns || (uns && !fitsU(n.u, 32)), "Uint32 accessor succeeds on other kinds or fails on its own")
	e32 = err
	u64, err := a.Uint64()
	sym.Assert((err == nil) == uns, "Uint64 accessor succeeds on other kinds or fails on its own")
	if uns {
		sym.Assert(uint64(u0) == n.u, "Uint accessor changes the value")
		sym.Assert(u64 == n.u, "Uint64 accessor changes the value")
		if e8 == nil {
			sym.Assert(sym.Implies(fitsU(n.u, 8), uint64(u8) == n.u), "Uint8 accessor changes a representable value")
		}
		if e16 == nil {
			sym.Assert(sym.Implies(fitsU(n.u, 16), uint64(u16) == n.u), "Uint16 accessor changes a representable value")
		}
		if e32 == nil {
			sym.Assert(sym.Implies(fitsU(n.u, 32), uint64(u32) == n.u), "Uint32 accessor changes a representable value")
		}
		sym.Reach("unsigned")
	}
	f32, err := a.Float32()
	sym.Assert((err == nil) == flt || (flt && n.w == 64 && !sameFloat(float64(float32(n.f)), n.f)), "Float32 accessor succeeds on other kinds or fails on its own")
	e32 = err
	f64, err := a.Float64()
	sym.Assert((err == nil) == flt, "Float64 accessor succeeds on other kinds or fails on its own")
	if flt {
		sym.Assert(sameFloat(f64, n.f), "Float64 accessor changes the value")
		if e32 == nil {
			// f64 is n.f by the assertion above
			sym.Assert(sym.Implies(sameFloat(float64(float32(f64)), f64), sameFloat(float64(f32), f64)), "Float32 accessor changes a representable value")
		}
		sym.Reach("float")
	}
}

// checkScalarAny: an element of a list accessor equals the source's element.
func checkScalarAny(n *node, x interface{}) {
	a := codec.NewAny(x)
	switch n.kind {
	case 'i':
		v, err := a.Int64()
		sym.Assert(err == nil && v == n.i, "Arr accessor changes an element")
	case 'u':
		v, err := a.Uint64()
		sym.Assert(err == nil && v == n.u, "Arr accessor changes an element")
	case 's':
		v, err := a.String()
		sym.Assert(err == nil && v == n.s, "Arr accessor changes an element")
	case 'f':
		v, err := a.Float64()
		sym.Assert(err == nil && sameFloat(v, n.f), "Arr accessor changes an element")
	case 'b':
		v, err := a.Bool()
		sym.Assert(err == nil && v == n.b, "Arr accessor changes an element")
	}
}
