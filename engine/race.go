package main

// Vector clocks and happens-before race detection.

import (
	"fmt"
	"strings"
)

type VC []uint32

func (v VC) copy() VC { return append(VC(nil), v...) }

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type acc struct {
	g    int
	t    uint32
	site string
	fn   string
}

type shadow struct {
	w     acc
	hasW  bool
	reads []acc
}

func (m *M) access(p *Value, write bool) {
	if !m.raceOn || !m.multi {
		return
	}
	g := m.cur
	if g == nil || g.top == nil || !g.top.tracked {
		return
	}
	m.accessRec(g, p, write, 0)
}

func (m *M) accessRec(g *G, p *Value, write bool, depth int) {
	switch v := (*p).(type) {
	case Struct:
		if depth < 4 && len(v) > 0 {
			for i := range v {
				m.accessRec(g, &v[i], write, depth+1)
			}
			return
		}
	case Array:
		if depth < 4 && len(v) > 0 && len(v) <= 32 {
			for i := range v {
				m.accessRec(g, &v[i], write, depth+1)
			}
			return
		}
	}
	s := m.shadow[p]
	if s == nil {
		s = &shadow{}
		m.shadow[p] = s
	}
	m.raceCheck(g, s, write, "memory")
}

func (m *M) mapAccess(o *MapObj, write bool) {
	if !m.raceOn || !m.multi || o == nil {
		return
	}
	g := m.cur
	if g == nil || g.top == nil || !g.top.tracked {
		return
	}
	s := m.mshadow[o]
	if s == nil {
		s = &shadow{}
		m.mshadow[o] = s
	}
	m.raceCheck(g, s, write, "map")
}

func (m *M) raceCheck(g *G, s *shadow, write bool, what string) {
	t := g.vc.at(g.id)
	me := acc{g.id, t, "", ""}
	var site string
	mySite := func() string {
		if site == "" {
			site = m.site(g)
		}
		return site
	}
	if s.hasW && s.w.g != g.id && s.w.t > g.vc.at(s.w.g) {
		m.reportRace(what, s.w, mySite(), write, true)
	}
	if write {
		for _, r := range s.reads {
			if r.g != g.id && r.t > g.vc.at(r.g) {
				m.reportRace(what, r, mySite(), write, false)
			}
		}
		me.site = mySite()
		s.w, s.hasW = me, true
		s.reads = s.reads[:0]
		return
	}
	for i := range s.reads {
		if s.reads[i].g == g.id {
			s.reads[i].t = t
			if s.reads[i].site == "" {
				s.reads[i].site = mySite()
			}
			return
		}
	}
	me.site = mySite()
	s.reads = append(s.reads, me)
}

func stripLine(s string) string { return s }

func (m *M) reportRace(what string, prev acc, site string, write, prevWrite bool) {
	a, b := prev.site, site
	if a > b {
		a, b = b, a
	}
	k := a + "~" + b
	if m.raceSeen[k] {
		return
	}
	m.raceSeen[k] = true
	m.raceSites[a], m.raceSites[b] = true, true
	rw := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	msg := fmt.Sprintf("data race: %s %s at %s is not ordered with %s at %s", what, rw(prevWrite), prev.site, rw(write), site)
	m.ensureModel()
	m.violateKey("race", msg, site, "race|"+k, m.model)
}

// raceFn normalises a site into a file name, for keys of known findings.
func siteFile(s string) string {
	if i := strings.LastIndex(s, ":"); i >= 0 {
		return s[:i]
	}
	return s
}
