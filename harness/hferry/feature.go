package hferry

import (
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/codec"
	"github.com/muguangyi/ferry/zzverif/sym"
)

// plain is a feature that notes what happens to it.
type plain struct {
	slot      ferry.ISlot
	starts    int
	destroys  int
	onStart   func(s ferry.ISlot)
	onDestroy func(s ferry.ISlot)
	execs     []interface{}
}

//go:norace
func (p *plain) started(s ferry.ISlot) {
	sym.Lock()
	p.slot = s
	p.starts++
	sym.Unlock()
}

func (p *plain) OnStart(s ferry.ISlot) {
	sym.Note(p)
	p.started(s)
	if p.onStart != nil {
		p.onStart(s)
	}
}

//go:norace
func (p *plain) destroyed() {
	sym.Lock()
	p.destroys++
	sym.Unlock()
}

func (p *plain) OnDestroy(s ferry.ISlot) {
	sym.Note(p)
	p.destroyed()
	if p.onDestroy != nil {
		p.onDestroy(s)
	}
}

//go:norace
func (p *plain) note(v interface{}) {
	sym.Lock()
	p.execs = append(p.execs, v)
	sym.Unlock()
}

//go:norace
func (p *plain) counts() (int, int, int) {
	sym.Lock()
	defer sym.Unlock()
	return p.starts, p.destroys, len(p.execs)
}

func (p *plain) Id(v int64) int64 {
	sym.Note(p)
	p.note(v)
	return v
}

func (p *plain) Put(s string) {
	sym.Note(p)
	p.note(s)
}

func number(v interface{}) int64 {
	n, err := codec.NewAny(v).Int64()
	sym.Assert(err == nil, "a value is no integer")
	return n
}

func sleep(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
