// Package hmisc checks the set of /repo/misc.
package hmisc

import (
	"github.com/muguangyi/ferry/misc"
	"github.com/muguangyi/ferry/zzverif/sym"
)

type point struct {
	X int
	S string
}

// item is a symbolic item of one of several kinds; items may be equal.
func item(k int, ptrs []*point) interface{} {
	switch k {
	case 0:
		return sym.Int("int")
	case 1:
		return sym.String("str", 1)
	case 2:
		return ptrs[sym.Choose("ptr", len(ptrs))]
	case 3:
		return point{sym.Int("x"), sym.String("s", 1)}
	case 4:
		return int32(sym.Int32("int32"))
	case 5:
		return sym.Bool("bool")
	case 6:
		return nil
	}
	return ""
}

type model struct{ items []interface{} }

func (m *model) index(it interface{}) int {
	for i, x := range m.items {
		if x == it {
			return i
		}
	}
	return -1
}

func (m *model) add(it interface{}) bool {
	if m.index(it) >= 0 {
		return false
	}
	m.items = append(m.items, it)
	return true
}

func (m *model) remove(it interface{}) bool {
	i := m.index(it)
	if i < 0 {
		return false
	}
	var out []interface{}
	out = append(out, m.items[:i]...)
	m.items = append(out, m.items[i+1:]...)
	return true
}

func (m *model) same(s []interface{}, msg string) {
	sym.Assert(len(s) == len(m.items), msg+": wrong number of items listed")
	for i, x := range s {
		sym.Assert(m.index(x) >= 0, msg+": an item that is not in the set is listed")
		for j := 0; j < i; j++ {
			sym.Assert(s[j] != x, msg+": an item is listed twice")
		}
	}
}

// M01Set runs a history of operations on two sets next to their models.
func M01Set() {
	ptrs := []*point{{1, "a"}, {1, "a"}}
	kinds := sym.Param("kinds")
	pool := make([]interface{}, sym.Param("items"))
	for i := range pool {
		pool[i] = item(sym.Choose("kind", kinds), ptrs)
	}
	a, b := misc.NewSet(), misc.NewSet()
	ma, mb := &model{}, &model{}
	var kept [][]interface{}
	var want []model
	for n := 0; n < sym.Param("ops"); n++ {
		s, m := a, ma
		if sym.Param("sets") > 1 && sym.Bool("other") {
			s, m = b, mb
		}
		switch sym.Choose("op", 3) {
		case 0:
			it := pool[sym.Choose("which", len(pool))]
			sym.Assert(s.Add(it) == m.add(it), "Add does not report whether the item was absent")
			sym.Reach("add")
		case 1:
			it := pool[sym.Choose("which", len(pool))]
			sym.Assert(s.Remove(it) == m.remove(it), "Remove does not report whether the item was present")
			sym.Reach("remove")
		case 2:
			l := s.ToSlice()
			m.same(l, "ToSlice")
			if len(l) > 0 && sym.Bool("scribble") {
				// the caller owns the slice
				l[0] = "changed by the caller"
				l = append(l, "appended by the caller")
				m.same(s.ToSlice(), "after the caller changed the slice")
			} else {
				kept = append(kept, l)
				want = append(want, model{append([]interface{}(nil), m.items...)})
			}
			sym.Reach("list")
		}
	}
	ma.same(a.ToSlice(), "at the end")
	mb.same(b.ToSlice(), "at the end")
	for i, l := range kept {
		want[i].same(l, "a slice returned earlier")
	}
	sym.Reach("end")
}

// M01Long fills a set with many distinct items, removes some and adds one again.
func M01Long() {
	sym.MapOrder(false)
	n := sym.Param("n")
	s, m := misc.NewSet(), &model{}
	items := make([]interface{}, n)
	base := sym.Int("base")
	sym.Assume(base > -1000 && base < 1000)
	for i := range items {
		// alternately ints and strings
		if i%2 == 0 {
			items[i] = base + i
		} else {
			items[i] = string([]byte{'a' + byte(i), sym.Byte("c")})
		}
		sym.Assert(s.Add(items[i]), "Add does not report a new item")
		m.add(items[i])
	}
	l := s.ToSlice()
	m.same(l, "ToSlice")
	for k := 0; k < sym.Param("rounds"); k++ {
		i := sym.Choose("which", n)
		if sym.Bool("add") {
			sym.Assert(s.Add(items[i]) == m.add(items[i]), "Add does not report whether the item was absent")
		} else {
			sym.Assert(s.Remove(items[i]) == m.remove(items[i]), "Remove does not report whether the item was present")
		}
		m.same(s.ToSlice(), "after a change")
	}
	(&model{items}).same(l, "a slice returned earlier")
	sym.Reach("end")
}
