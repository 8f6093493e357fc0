package main

// Models of the standard library roots and of the sym harness API.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, g *G, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsic

func nop(m *M, g *G, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

func pkgIntrinsic(fn *ssa.Function) intrinsic {
	switch fn.Pkg.Pkg.Path() {
	case "internal/race", "internal/msan", "internal/asan":
		return nop
	case "log":
		return logIntrinsic
	case "os/signal":
		switch fn.Name() {
		case "Notify":
			return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
				m.sigs = append(m.sigs, args[0].(*ChanObj))
				return nil
			}
		case "Stop", "Reset", "Ignore":
			return nop
		}
	}
	return nil
}

func logIntrinsic(m *M, g *G, fn *ssa.Function, args []Value) Value {
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Fatal"):
		m.exitCall(g, "log."+n)
	case strings.HasPrefix(n, "Panic"):
		panic(targetPanic{v: Iface{types.Typ[types.String], Str{s: "log." + n}}})
	case n == "New" || n == "Default":
		p := new(Value)
		*p = m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return p
	}
	return nop(m, g, fn, args)
}

func (m *M) exitCall(g *G, what string) {
	if m.exitOK {
		m.finish("done", "")
	}
	m.ensureModel()
	m.violate("exit", "process exit through "+what, m.site(g), m.model)
	m.finish("violation", "")
}

func (m *M) i64(v int64) *Term { return m.tb.Const(uint64(v), 64) }

func symName(m *M, v Value) string { return m.strOf(v) }

func errIface(m *M, s string) Value { return m.newErr(Str{s: s}) }

func ptrOf(m *M, v Value) *Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	S := hBase + "sym."
	scalar := func(w uint8) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			return m.freshInput(symName(m, args[0]), w)
		}
	}
	for n, w := range map[string]uint8{"Bool": 0, "Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64, "Int": 64, "Uint8": 8, "Byte": 8,
		"Uint16": 16, "Uint32": 32, "Uint64": 64, "Uint": 64, "Float32": 32, "Float64": 64} {
		I[S+n] = scalar(w)
	}
	I[S+"Range"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		v := m.freshInput(symName(m, args[0]), 64)
		m.assume(m.tb.And(m.tb.Bin(OSLe, args[1].(*Term), v), m.tb.Bin(OSLe, v, args[2].(*Term))))
		return v
	}
	I[S+"Choose"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := int(m.concretize(args[1].(*Term), "Choose"))
		return m.i64(int64(m.choose(symName(m, args[0]), n, 'c')))
	}
	I[S+"Bytes"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := int(m.concretize(args[1].(*Term), "Bytes"))
		name := symName(m, args[0])
		a := make([]Value, n)
		for i := range a {
			a[i] = m.freshInput(name, 8)
		}
		return Slice{a: a}
	}
	I[S+"String"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := int(m.concretize(args[1].(*Term), "String"))
		name := symName(m, args[0])
		t := make([]*Term, n)
		for i := range t {
			t[i] = m.freshInput(name, 8)
		}
		return mkStr(t)
	}
	I[S+"Concrete"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.i64(int64(m.concretize(args[0].(*Term), "Concrete")))
	}
	I[S+"Assume"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.assume(args[0].(*Term))
		return nil
	}
	I[S+"Assert"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.check(args[0].(*Term), "assert", symName(m, args[1]), m.siteH(g))
		return nil
	}
	I[S+"Fail"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.check(m.tb.False, "assert", symName(m, args[0]), m.siteH(g))
		return nil
	}
	I[S+"Reach"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.reach[symName(m, args[0])] = true
		return nil
	}
	I[S+"Param"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := symName(m, args[0])
		v, ok := m.opt.Params[n]
		if !ok {
			panic(engineError("unknown parameter " + n))
		}
		return m.i64(int64(v))
	}
	I[S+"Quiesce"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.quiesce(g)
		return nil
	}
	I[S+"And"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.And(args[0].(*Term), args[1].(*Term))
	}
	I[S+"Or"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Or(args[0].(*Term), args[1].(*Term))
	}
	I[S+"Implies"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Or(m.tb.Not(args[0].(*Term)), args[1].(*Term))
	}
	I[S+"Ite"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
	}
	I[S+"BytesEq"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		a, b := m.concSlice(args[0].(Slice), "BytesEq"), m.concSlice(args[1].(Slice), "BytesEq")
		return m.strEq(m.bytesToStr(a), m.bytesToStr(b))
	}
	I[S+"HookNet"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.hooks["dial"], m.hooks["listen"] = args[0], args[1]
		return nil
	}
	I[S+"AllocLimit"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.allocLimit = int64(args[0].(*Term).v)
		return nil
	}
	I[S+"DetectRaces"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.raceOn = true; return nil }
	I[S+"AllowExit"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.exitOK = true; return nil }
	I[S+"AllowDeadlock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.deadlockOK = true; return nil }
	I[S+"MapOrder"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.mapOrder = args[0].(*Term).isTrue()
		return nil
	}
	I[S+"Note"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		var obj interface{} = "note"
		if i, ok := args[0].(Iface); ok {
			if p, ok := i.v.(*Value); ok && p != nil {
				obj = noteKey{p}
			}
		}
		m.visible(g, "note", obj, true)
		return nil
	}
	I[S+"Lock"] = nop
	I[S+"Unlock"] = nop
	I[S+"SymClock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.symClock = true; return nil }
	I[S+"AsyncTime"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.clockMode = 1; return nil }
	I[S+"Sched"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.schedMode = int(args[0].(*Term).v)
		m.preemptMax = int(int64(args[1].(*Term).v))
		m.preempts = 0
		return nil
	}
	I[S+"Signal"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		sigT := m.ld.pkgs["os"].Var("Interrupt")
		v := *m.global(sigT)
		for _, c := range m.sigs {
			m.visible(g, "signal", c, true)
			if len(c.buf) < c.cap || hasWaiter(c.recvq, nil) {
				m.trySend(g, c, v)
			}
		}
		return nil
	}
	I[S+"Now"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.now }
	I[S+"CheckAlloc"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.call(g, g.top, args[0], nil, nil)
		return nil
	}
	I[S+"Native"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.False }
	I[S+"Log"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		if m.opt.Verbose {
			fmt.Println("LOG path", m.pathID, g.name, m.showVal(args[0]))
		}
		return nil
	}

	// ---- fmt
	I["fmt.Sprintf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		s, _ := m.format(g, args[0].(Str), args[1].(Slice))
		return s
	}
	I["fmt.Errorf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		s, w := m.format(g, args[0].(Str), args[1].(Slice))
		if w != nil {
			cell := new(Value)
			*cell = Struct{s, w}
			return Iface{types.NewPointer(m.ld.pkgs["fmt"].Type("wrapError").Type()), cell}
		}
		return m.newErr(s)
	}
	I["fmt.Appendf"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		s, _ := m.format(g, args[1].(Str), args[2].(Slice))
		b := m.concSlice(args[0].(Slice), "Appendf")
		return Slice{a: append(append([]Value{}, b...), m.strToBytes(s).a...)}
	}
	sprint := func(m *M, g *G, sl Slice, ln bool) Str {
		out := Str{}
		prevStr := true
		for i, a := range m.concSlice(sl, "Sprint") {
			ia := a.(Iface)
			isStr := ia.t != nil && isString(ia.t)
			if i > 0 && (ln || (!isStr && !prevStr)) {
				out = m.strConcat(out, Str{s: " "})
			}
			out = m.strConcat(out, m.formatArg(g, 'v', ia, false))
			prevStr = isStr
		}
		if ln {
			out = m.strConcat(out, Str{s: "\n"})
		}
		return out
	}
	I["fmt.Sprint"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return sprint(m, g, args[0].(Slice), false) }
	I["fmt.Sprintln"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return sprint(m, g, args[0].(Slice), true) }
	for _, n := range []string{"Print", "Println", "Printf"} {
		I["fmt."+n] = nop
	}
	fpr := func(mk func(m *M, g *G, args []Value) Str) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			w := args[0].(Iface)
			if w.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if w.t.String() == "*os.File" {
				return Tuple{m.i64(0), Iface{}}
			}
			s := mk(m, g, args[1:])
			return m.call(g, g.top, m.method(w, nil, "Write"), []Value{w.v, m.strToBytes(s)}, nil)
		}
	}
	I["fmt.Fprintf"] = fpr(func(m *M, g *G, a []Value) Str { s, _ := m.format(g, a[0].(Str), a[1].(Slice)); return s })
	I["fmt.Fprint"] = fpr(func(m *M, g *G, a []Value) Str { return sprint(m, g, a[0].(Slice), false) })
	I["fmt.Fprintln"] = fpr(func(m *M, g *G, a []Value) Str { return sprint(m, g, a[0].(Slice), true) })

	// ---- strconv
	I["strconv.Itoa"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.decimal(args[0].(*Term), true) }
	I["strconv.FormatInt"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		b := args[1].(*Term)
		if b.isConst() && b.v == 10 {
			return m.decimal(args[0].(*Term), true)
		}
		return Str{s: strconv.FormatInt(int64(m.concretize(args[0].(*Term), "FormatInt")), int(m.concretize(b, "base")))}
	}
	I["strconv.FormatUint"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		b := args[1].(*Term)
		if b.isConst() && b.v == 10 {
			return m.decimal(args[0].(*Term), false)
		}
		return Str{s: strconv.FormatUint(m.concretize(args[0].(*Term), "FormatUint"), int(m.concretize(b, "base")))}
	}
	I["strconv.FormatFloat"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		f := b2f(m.concretize(args[0].(*Term), "FormatFloat"), 64)
		return Str{s: strconv.FormatFloat(f, byte(args[1].(*Term).v), int(int64(args[2].(*Term).v)), int(args[3].(*Term).v))}
	}
	I["strconv.AppendInt"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		s := m.decimal(args[1].(*Term), true)
		return Slice{a: append(append([]Value{}, args[0].(Slice).a...), m.strToBytes(s).a...)}
	}
	I["strconv.Quote"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.strConcat(m.strConcat(Str{s: `"`}, args[0].(Str)), Str{s: `"`})
	}

	// ---- math
	ident := func(m *M, g *G, fn *ssa.Function, args []Value) Value { return args[0] }
	for _, n := range []string{"math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits", "internal/abi.NoEscape", "internal/abi.Escape",
		"strings.Clone", "internal/stringslite.Clone", "internal/abi.TypeFor"} {
		I[n] = ident
	}
	mf := func(f func(float64) float64) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			return m.tb.Const(f2b(f(b2f(m.concretize(args[0].(*Term), "float argument"), 64)), 64), 64)
		}
	}
	I["math.Floor"], I["math.Ceil"], I["math.Trunc"], I["math.Sqrt"] = mf(math.Floor), mf(math.Ceil), mf(math.Trunc), mf(math.Sqrt)
	I["math.Round"] = mf(math.Round)
	I["math.Abs"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bin(OBAnd, args[0].(*Term), m.tb.Const(1<<63-1, 64))
	}

	// ---- internal/bytealg
	byteAt := func(m *M, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return m.strTerms(x)
		case Slice:
			a := m.concSlice(x, "bytes")
			r := make([]*Term, len(a))
			for i := range a {
				r[i] = a[i].(*Term)
			}
			return r
		}
		panic(engineError("bytes"))
	}
	indexByte := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		c := args[1].(*Term)
		for i, b := range byteAt(m, args[0]) {
			if m.branch(m.tb.Eq(b, c)) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	I["internal/bytealg.IndexByte"], I["internal/bytealg.IndexByteString"] = indexByte, indexByte
	I["strings.IndexByte"], I["bytes.IndexByte"] = indexByte, indexByte
	lastIndexByte := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		c := args[1].(*Term)
		bs := byteAt(m, args[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(m.tb.Eq(bs[i], c)) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	I["internal/bytealg.LastIndexByte"], I["internal/bytealg.LastIndexByteString"] = lastIndexByte, lastIndexByte
	count := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		c := args[1].(*Term)
		n := 0
		for _, b := range byteAt(m, args[0]) {
			if m.branch(m.tb.Eq(b, c)) {
				n++
			}
		}
		return m.i64(int64(n))
	}
	I["internal/bytealg.Count"], I["internal/bytealg.CountString"] = count, count
	equal := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.strEq(mkStr(byteAt(m, args[0])), mkStr(byteAt(m, args[1])))
	}
	I["bytes.Equal"], I["internal/bytealg.Equal"] = equal, equal
	compare := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		a, b := mkStr(byteAt(m, args[0])), mkStr(byteAt(m, args[1]))
		return m.tb.Ite(m.strEq(a, b), m.i64(0), m.tb.Ite(m.strLess(a, b), m.i64(-1), m.i64(1)))
	}
	I["bytes.Compare"], I["internal/bytealg.Compare"], I["internal/bytealg.CompareString"], I["strings.Compare"] = compare, compare, compare, compare
	index := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		a, b := byteAt(m, args[0]), byteAt(m, args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			if m.branch(m.strEq(mkStr(a[i:i+len(b)]), mkStr(b))) {
				return m.i64(int64(i))
			}
		}
		return m.i64(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		I[n] = index
	}
	I["internal/bytealg.MakeNoZero"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := args[0].(*Term)
		return m.makeSlice(types.NewSlice(types.Typ[types.Byte]), n, n)
	}
	I["(*strings.Builder).String"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		st := (*ptrOf(m, args[0])).(Struct)
		return m.bytesToStr(st[1].(Slice).a)
	}
	I["(*strings.Builder).copyCheck"] = nop

	// ---- sync
	I["(*sync.Mutex).Lock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.lock(g, ptrOf(m, args[0])); return nil }
	I["(*sync.Mutex).Unlock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.unlock(g, ptrOf(m, args[0]), false)
		return nil
	}
	I["(*sync.Mutex).TryLock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bool(m.tryLock(g, ptrOf(m, args[0])))
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).Unlock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.unlock(g, ptrOf(m, args[0]), true)
		return nil
	}
	I["(*sync.RWMutex).RLock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.rlock(g, ptrOf(m, args[0])); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.runlock(g, ptrOf(m, args[0])); return nil }
	I["(*sync.WaitGroup).Add"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.wgAdd(g, ptrOf(m, args[0]), args[1].(*Term))
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.wgAdd(g, ptrOf(m, args[0]), m.i64(-1))
		return nil
	}
	I["(*sync.WaitGroup).Wait"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.wgWait(g, ptrOf(m, args[0])); return nil }
	I["(*sync.WaitGroup).Go"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p, f := ptrOf(m, args[0]), args[1]
		m.wgAdd(g, p, m.i64(1))
		m.spawn(g, "WaitGroup.Go", func(g2 *G) {
			m.call(g2, nil, f, nil, nil)
			m.wgAdd(g2, p, m.i64(-1))
		})
		return nil
	}
	I["(*sync.Once).Do"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.once(g, ptrOf(m, args[0]), func() { m.call(g, g.top, args[1], nil, nil) })
		return nil
	}
	condL := func(m *M, p *Value) Iface {
		// Cond{noCopy, L Locker, ...}
		st := (*p).(Struct)
		for _, f := range st {
			if i, ok := f.(Iface); ok {
				return i
			}
		}
		panic(engineError("sync.Cond without L"))
	}
	I["(*sync.Cond).Wait"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		l := condL(m, p)
		c := m.conds[p]
		if c == nil {
			c = &condState{}
			m.conds[p] = c
		}
		c.q = append(c.q, g)
		m.call(g, g.top, m.method(l, nil, "Unlock"), []Value{l.v}, nil)
		// a signal may have arrived while unlocking
		still := false
		for _, x := range c.q {
			if x == g {
				still = true
			}
		}
		if still {
			m.block(g, "Cond.Wait")
		} else {
			for i, x := range m.eager { // it is already running
				if x == g {
					m.eager = append(append([]*G{}, m.eager[:i]...), m.eager[i+1:]...)
					break
				}
			}
		}
		m.call(g, g.top, m.method(l, nil, "Lock"), []Value{l.v}, nil)
		return nil
	}
	sig := func(all bool) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.visible(g, "signal", p, true)
			c := m.conds[p]
			if c == nil {
				return nil
			}
			for len(c.q) > 0 {
				w := c.q[0]
				c.q = c.q[1:]
				if w.status == gBlocked {
					m.ready(w)
				}
				if !all {
					break
				}
			}
			return nil
		}
	}
	I["(*sync.Cond).Signal"], I["(*sync.Cond).Broadcast"] = sig(false), sig(true)
	I["(*sync.Pool).Get"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "pool", true)
		if st, ok := m.side[p].(Slice); ok && len(st.a) > 0 {
			v := st.a[len(st.a)-1]
			m.side[p] = Slice{a: st.a[:len(st.a)-1]}
			return v
		}
		st := (*p).(Struct)
		nf := st[len(st)-1]
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return Iface{}
		}
		return m.call(g, g.top, nf, nil, nil)
	}
	I["(*sync.Pool).Put"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "pool", true)
		st, _ := m.side[p].(Slice)
		m.side[p] = Slice{a: append(append([]Value{}, st.a...), args[1])}
		return nil
	}
	smap := func(m *M, v Value) *MapObj {
		p := ptrOf(m, v)
		mo, _ := m.side[p].(*MapObj)
		if mo == nil {
			mo = m.newMap()
			m.side[p] = mo
		}
		return mo
	}
	anyT := types.Universe.Lookup("any").Type()
	I["(*sync.Map).Load"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", false)
		if e := m.mapFind(mo, anyT, args[1]); e != nil {
			return Tuple{*e.cell, m.tb.True}
		}
		return Tuple{Iface{}, m.tb.False}
	}
	I["(*sync.Map).Store"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", true)
		m.mapSet(mo, anyT, args[1], args[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", true)
		if e := m.mapFind(mo, anyT, args[1]); e != nil {
			return Tuple{*e.cell, m.tb.True}
		}
		m.mapSet(mo, anyT, args[1], args[2])
		return Tuple{args[2], m.tb.False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", true)
		if e := m.mapFind(mo, anyT, args[1]); e != nil {
			v := *e.cell
			m.mapDelete(mo, anyT, args[1])
			return Tuple{v, m.tb.True}
		}
		return Tuple{Iface{}, m.tb.False}
	}
	I["(*sync.Map).Delete"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", true)
		m.mapDelete(mo, anyT, args[1])
		return nil
	}
	I["(*sync.Map).Range"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		mo := smap(m, args[0])
		m.syncPoint(g, mo, "syncmap", false)
		it := &MapIter{m: mo}
		for {
			e := m.mapIterNext(it)
			if e == nil {
				return nil
			}
			r := m.call(g, g.top, args[1], []Value{e.k, *e.cell}, nil)
			if !m.branch(r.(*Term)) {
				return nil
			}
		}
	}

	// ---- sync/atomic
	A := "sync/atomic."
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I[A+"Load"+ty] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.syncPoint(g, p, "atomic", false)
			return *p
		}
		I[A+"Store"+ty] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.syncPoint(g, p, "atomic", true)
			m.storeCount++
			*p = args[1]
			return nil
		}
		I[A+"Swap"+ty] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.syncPoint(g, p, "atomic", true)
			m.storeCount++
			o := *p
			*p = args[1]
			return o
		}
		I[A+"Add"+ty] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.syncPoint(g, p, "atomic", true)
			m.storeCount++
			*p = m.tb.Bin(OAdd, (*p).(*Term), args[1].(*Term))
			return *p
		}
		I[A+"CompareAndSwap"+ty] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
			p := ptrOf(m, args[0])
			m.syncPoint(g, p, "atomic", true)
			var c *Term
			if t, ok := (*p).(*Term); ok {
				c = m.tb.Eq(t, args[1].(*Term))
			} else {
				c = m.eq(types.Typ[types.UnsafePointer], *p, args[1])
			}
			if m.branch(c) {
				m.storeCount++
				*p = args[2]
				return m.tb.True
			}
			return m.tb.False
		}
	}
	// typed pointers and values keep their content in the side table
	I["(*sync/atomic.Pointer[T]).Load"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", false)
		if v, ok := m.side[p]; ok {
			return v
		}
		return (*Value)(nil)
	}
	I["(*sync/atomic.Pointer[T]).Store"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", true)
		m.side[p] = args[1]
		return nil
	}
	I["(*sync/atomic.Pointer[T]).Swap"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", true)
		o, ok := m.side[p]
		if !ok {
			o = (*Value)(nil)
		}
		m.side[p] = args[1]
		return o
	}
	I["(*sync/atomic.Pointer[T]).CompareAndSwap"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", true)
		o, ok := m.side[p]
		if !ok {
			o = (*Value)(nil)
		}
		if o == args[1] {
			m.side[p] = args[2]
			return m.tb.True
		}
		return m.tb.False
	}
	I["(*sync/atomic.Value).Load"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", false)
		if v, ok := m.side[p]; ok {
			return v
		}
		return Iface{}
	}
	I["(*sync/atomic.Value).Store"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := ptrOf(m, args[0])
		m.syncPoint(g, p, "atomic", true)
		if args[1].(Iface).t == nil {
			panic(targetPanic{v: Iface{types.Typ[types.String], Str{s: "sync/atomic: store of nil value into Value"}}})
		}
		m.side[p] = args[1]
		return nil
	}

	// ---- time
	I["time.Sleep"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.sleep(g, args[0].(*Term)); return nil }
	mkTime := func(m *M, ns *Term) Value {
		return Struct{m.tb.Const(0, 64), ns, (*Value)(nil)}
	}
	I["time.Now"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		if m.symClock {
			v := m.freshInput("clock", 64)
			c := m.tb.And(m.tb.Bin(OSLe, m.i64(1), v), m.tb.Bin(OSLe, v, m.i64(1<<62)))
			if m.clockVar != nil {
				c = m.tb.And(c, m.tb.Bin(OSLe, m.clockVar, v))
			}
			m.assume(c)
			m.clockVar = v
			return mkTime(m, v)
		}
		return mkTime(m, m.tb.Bin(OAdd, m.i64(m.nowBase), m.now))
	}
	ns := func(v Value) *Term { return v.(Struct)[1].(*Term) }
	now := func(m *M) *Term { return m.tb.Bin(OAdd, m.i64(m.nowBase), m.now) }
	I["time.Since"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.Bin(OSub, now(m), ns(args[0])) }
	I["time.Until"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.Bin(OSub, ns(args[0]), now(m)) }
	I["(time.Time).Sub"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bin(OSub, ns(args[0]), ns(args[1]))
	}
	I["(time.Time).Add"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return mkTime(m, m.tb.Bin(OAdd, ns(args[0]), args[1].(*Term)))
	}
	I["(time.Time).UnixNano"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return ns(args[0]) }
	udiv := func(k int64) intrinsic {
		return func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.Bin(OSDiv, ns(args[0]), m.i64(k)) }
	}
	I["(time.Time).Unix"], I["(time.Time).UnixMilli"], I["(time.Time).UnixMicro"] = udiv(1e9), udiv(1e6), udiv(1e3)
	I["(time.Time).Nanosecond"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bin(OSRem, ns(args[0]), m.i64(1e9))
	}
	I["(time.Time).Before"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bin(OSLt, ns(args[0]), ns(args[1]))
	}
	I["(time.Time).After"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Bin(OSLt, ns(args[1]), ns(args[0]))
	}
	I["(time.Time).Equal"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.Eq(ns(args[0]), ns(args[1])) }
	I["(time.Time).IsZero"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.tb.Eq(ns(args[0]), m.i64(0)) }
	I["(time.Duration).String"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return Str{s: "duration"} }
	tchan := func(m *M, g *G, d *Term) (*ChanObj, *timer) {
		c := m.newChan(1)
		c.name = "timer"
		var t *timer
		t = m.addTimer(g, d, func() {
			if len(c.buf) >= c.cap {
				return
			}
			if w := popWaiter(&c.recvq); w != nil {
				w.g.vc.join(t.vc)
				m.complete(w, mkTime(m, now(m)), true, false)
				return
			}
			c.buf = append(c.buf, chanItem{mkTime(m, now(m)), t.vc})
		})
		return c, t
	}
	nonneg := func(m *M, d *Term) *Term {
		return m.tb.Ite(m.tb.Bin(OSLt, d, m.i64(0)), m.i64(0), d)
	}
	I["time.After"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		c, _ := tchan(m, g, nonneg(m, args[0].(*Term)))
		return c
	}
	timerOf := func(m *M, v Value) *timerBox {
		b, _ := m.side[ptrOf(m, v)].(*timerBox)
		if b == nil {
			panic(targetPanic{v: Iface{types.Typ[types.String], Str{s: "time: Stop called on uninitialized Timer"}}})
		}
		return b
	}
	I["time.NewTimer"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		c, t := tchan(m, g, nonneg(m, args[0].(*Term)))
		p := new(Value)
		st := m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(Struct)
		st[0] = c
		*p = st
		m.side[p] = &timerBox{t: t, c: c}
		return p
	}
	I["time.AfterFunc"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		p := new(Value)
		*p = m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		b := &timerBox{}
		f := args[1]
		b.f = func() {
			vc := b.t.vc
			x := m.spawn(g, "AfterFunc", func(g2 *G) { m.call(g2, nil, f, nil, nil) })
			x.vc = vc.copy()
			x.tick()
		}
		b.t = m.addTimer(g, nonneg(m, args[0].(*Term)), b.f)
		m.side[p] = b
		return p
	}
	I["(*time.Timer).Stop"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		b := timerOf(m, args[0])
		m.visible(g, "timer", b, true)
		was := m.delTimer(b.t)
		return m.tb.Bool(was)
	}
	I["(*time.Timer).Reset"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		b := timerOf(m, args[0])
		m.visible(g, "timer", b, true)
		was := m.delTimer(b.t)
		f := b.t.fire
		nt := m.addTimer(g, nonneg(m, args[1].(*Term)), f)
		*b.t = *nt
		for i, x := range m.timers {
			if x == nt {
				m.timers[i] = b.t
			}
		}
		return m.tb.Bool(was)
	}
	I["time.NewTicker"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		d := args[0].(*Term)
		c := m.newChan(1)
		c.name = "ticker"
		p := new(Value)
		st := m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()).(Struct)
		st[0] = c
		*p = st
		b := &timerBox{c: c}
		b.f = func() {
			if len(c.buf) < c.cap {
				if w := popWaiter(&c.recvq); w != nil {
					w.g.vc.join(b.t.vc)
					m.complete(w, mkTime(m, now(m)), true, false)
				} else {
					c.buf = append(c.buf, chanItem{mkTime(m, now(m)), b.t.vc})
				}
			}
			b.t = m.addTimer(nil, d, b.f)
		}
		b.t = m.addTimer(g, d, b.f)
		m.side[p] = b
		return p
	}
	I["(*time.Ticker).Stop"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		m.delTimer(timerOf(m, args[0]).t)
		return nil
	}

	// ---- runtime, os
	I["runtime.Gosched"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.visible(g, "yield", nil, false); return nil }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.NumGoroutine", "runtime.Callers", "runtime.Caller", "runtime/debug.Stack",
		"runtime/debug.PrintStack", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime.Stack", "runtime.FuncForPC", "runtime.ReadMemStats", "runtime.AddCleanup"} {
		I[n] = nop
	}
	I["runtime.NumCPU"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.i64(8) }
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["os.Exit"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { m.exitCall(g, "os.Exit"); return nil }
	I["os.Getenv"] = nop
	I["os.Getpid"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.i64(4242) }
	I["math/rand.Int63"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.rnd(63) }
	I["math/rand.Int"] = I["math/rand.Int63"]
	I["math/rand.Int31"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		return m.tb.Extract(m.rnd(31), 31, 0)
	}
	intn := func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		n := args[0].(*Term)
		v := m.freshInput("rand", n.w)
		m.assume(m.tb.And(m.tb.Bin(OSLe, m.tb.Const(0, n.w), v), m.tb.Bin(OSLt, v, n)))
		return v
	}
	for _, n := range []string{"math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "math/rand/v2.Int64N"} {
		I[n] = intn
	}
	I["math/rand.Seed"] = nop
	I["math/rand.Uint32"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.freshInput("rand", 32) }
	I["math/rand.Uint64"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.freshInput("rand", 64) }

	// ---- net
	dial := func(m *M, g *G, netw, addr Value) Value {
		h, ok := m.hooks["dial"]
		if !ok {
			m.unsupported("net.Dial without a hook")
		}
		return m.call(g, g.top, h, []Value{netw, addr}, nil)
	}
	I["net.Dial"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return dial(m, g, args[0], args[1]) }
	I["net.DialTimeout"] = I["net.Dial"]
	I["(*net.Dialer).Dial"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return dial(m, g, args[1], args[2]) }
	I["(*net.Dialer).DialContext"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return dial(m, g, args[2], args[3]) }
	I["net.Listen"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value {
		h, ok := m.hooks["listen"]
		if !ok {
			m.unsupported("net.Listen without a hook")
		}
		return m.call(g, g.top, h, []Value{args[0], args[1]}, nil)
	}
	I["errors.New"] = func(m *M, g *G, fn *ssa.Function, args []Value) Value { return m.newErr(args[0].(Str)) }
	initReflect(I)
}

type timerBox struct {
	t *timer
	c *ChanObj
	f func()
}

func (m *M) rnd(bits uint8) *Term {
	v := m.freshInput("rand", 64)
	m.assume(m.tb.Bin(OULt, v, m.tb.Const(1<<bits, 64)))
	return v
}

// siteH: position of the innermost harness or module frame
func (m *M) siteH(g *G) string {
	if g.top != nil {
		return m.ld.pos(g.top.pos)
	}
	return "?"
}

// decimal renders an integer; symbolic values fork on sign and digit count.
func (m *M) decimal(t *Term, signed bool) Str {
	tb := m.tb
	if t.w < 64 {
		if signed {
			t = tb.SExt(t, 64)
		} else {
			t = tb.ZExt(t, 64)
		}
	}
	if t.isConst() {
		if signed {
			return Str{s: strconv.FormatInt(int64(t.v), 10)}
		}
		return Str{s: strconv.FormatUint(t.v, 10)}
	}
	neg := false
	if signed && m.branch(tb.Bin(OSLt, t, m.i64(0))) {
		neg = true
		t = tb.Neg(t)
	}
	n := 1
	p := uint64(10)
	for n < 20 && !m.branch(tb.Bin(OULt, t, tb.Const(p, 64))) {
		n++
		if n == 20 {
			break
		}
		p *= 10
	}
	var out []*Term
	if neg {
		out = append(out, tb.Const('-', 8))
	}
	// digits as auxiliary variables: t = sum d_i 10^i, d_i < 10
	w := uint8(64)
	x := t
	if n <= 9 {
		w = 32
		x = tb.Extract(t, 31, 0)
	}
	digits := make([]*Term, n)
	q := x
	for i := n - 1; i >= 0; i-- {
		digits[i] = tb.Bin(OURem, q, tb.Const(10, w))
		q = tb.Bin(OUDiv, q, tb.Const(10, w))
	}
	for _, d := range digits {
		out = append(out, tb.Bin(OAdd, tb.Extract(d, 7, 0), tb.Const('0', 8)))
	}
	return mkStr(out)
}

// format models fmt.Sprintf; it returns the wrapped error of %w, if any.
func (m *M) format(g *G, f Str, args Slice) (Str, Value) {
	if f.t != nil {
		m.unsupported("symbolic format string")
	}
	a := m.concSlice(args, "format arguments")
	s := f.s
	out := Str{}
	var wrapped Value
	k := 0
	lit := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		out = m.strConcat(out, Str{s: s[lit:i]})
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			out = m.strConcat(out, Str{s: "%!(NOVERB)"})
			lit = len(s)
			break
		}
		verb := s[j]
		flags := s[i+1 : j]
		if verb == '%' {
			out = m.strConcat(out, Str{s: "%"})
		} else if k >= len(a) {
			out = m.strConcat(out, Str{s: "%!" + string(verb) + "(MISSING)"})
		} else {
			arg := a[k].(Iface)
			k++
			if verb == 'w' {
				wrapped = arg
				verb = 'v'
			}
			if flags != "" && flags != "+" && flags != "#" {
				out = m.strConcat(out, m.formatFlags(g, "%"+flags+string(verb), verb, arg))
			} else {
				out = m.strConcat(out, m.formatArg(g, verb, arg, false))
			}
		}
		i = j
		lit = j + 1
	}
	if lit < len(s) {
		out = m.strConcat(out, Str{s: s[lit:]})
	}
	if k < len(a) {
		out = m.strConcat(out, Str{s: "%!(EXTRA)"})
	}
	return out, wrapped
}

func (m *M) formatFlags(g *G, f string, verb byte, a Iface) Str {
	switch x := a.v.(type) {
	case *Term:
		v := m.concretize(x, "formatted value")
		if isFloat(a.t) {
			return Str{s: fmt.Sprintf(f, b2f(v, x.w))}
		}
		if isSigned(a.t) {
			return Str{s: fmt.Sprintf(f, sext(v, x.w))}
		}
		return Str{s: fmt.Sprintf(f, v)}
	case Str:
		return Str{s: fmt.Sprintf(f, m.strOf(x))}
	}
	return m.formatArg(g, verb, a, false)
}

func (m *M) formatArg(g *G, verb byte, a Iface, nested bool) Str {
	if a.t == nil {
		if verb == 'd' {
			return Str{s: "%!d(<nil>)"}
		}
		if verb == 's' {
			return Str{s: "%!s(<nil>)"}
		}
		return Str{s: "<nil>"}
	}
	if verb == 'T' {
		return Str{s: typeStr(a.t)}
	}
	if rt, ok := a.v.(RType); ok {
		return Str{s: typeStr(rt.t)}
	}
	if rv, ok := a.v.(RVal); ok {
		if rv.t == nil {
			return Str{s: "<invalid reflect.Value>"}
		}
		if i, ok := m.rvGet(rv).(Iface); ok {
			return m.formatArg(g, verb, i, nested)
		}
		return m.formatArg(g, verb, Iface{rv.t, m.rvGet(rv)}, nested)
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		ms := m.ld.prog.MethodSets.MethodSet(a.t)
		for _, n := range []string{"Error", "String"} {
			sel := ms.Lookup(nil, n)
			if sel == nil {
				continue
			}
			sg := sel.Type().(*types.Signature)
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
				continue
			}
			if p, ok := a.v.(*Value); ok && p == nil {
				return Str{s: "<nil>"}
			}
			return m.call(g, g.top, m.method(a, nil, n), []Value{a.v}, nil).(Str)
		}
	}
	bad := func() Str { return m.strConcat(Str{s: "%!" + string(verb) + "(" + typeStr(a.t) + "="}, Str{s: ")"}) }
	switch x := a.v.(type) {
	case Str:
		switch verb {
		case 'v', 's':
			return x
		case 'q':
			return m.strConcat(m.strConcat(Str{s: `"`}, x), Str{s: `"`})
		case 'd':
			return m.strConcat(m.strConcat(Str{s: "%!d(string="}, x), Str{s: ")"})
		case 'x', 'X':
			return Str{s: fmt.Sprintf("%x", m.strOf(x))}
		}
		return bad()
	case *Term:
		if x.w == 0 {
			if m.branch(x) {
				return Str{s: "true"}
			}
			return Str{s: "false"}
		}
		if isFloat(a.t) {
			v := m.concretize(x, "formatted float")
			f := b2f(v, x.w)
			if verb == 'd' {
				return bad()
			}
			if verb == 's' {
				return bad()
			}
			if x.w == 32 {
				return Str{s: fmt.Sprintf("%"+string(verb), float32(f))}
			}
			return Str{s: fmt.Sprintf("%"+string(verb), f)}
		}
		switch verb {
		case 'v', 'd':
			return m.decimal(x, isSigned(a.t))
		case 's':
			return m.strConcat(m.strConcat(Str{s: "%!s(" + typeStr(a.t) + "="}, m.decimal(x, isSigned(a.t))), Str{s: ")"})
		case 'x', 'X', 'c', 'o', 'b', 'U':
			v := m.concretize(x, "formatted value")
			if isSigned(a.t) {
				return Str{s: fmt.Sprintf("%"+string(verb), sext(v, x.w))}
			}
			return Str{s: fmt.Sprintf("%"+string(verb), v)}
		}
		return bad()
	case Slice:
		if bt, ok := a.t.Underlying().(*types.Slice); ok {
			el := m.concSlice(x, "formatted slice")
			if b, ok := bt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && verb == 's' {
				return m.bytesToStr(el)
			}
			out := Str{s: "["}
			for i, e := range el {
				if i > 0 {
					out = m.strConcat(out, Str{s: " "})
				}
				ie, ok := e.(Iface)
				if !ok {
					ie = Iface{bt.Elem(), e}
				}
				out = m.strConcat(out, m.formatArg(g, verb, ie, true))
			}
			return m.strConcat(out, Str{s: "]"})
		}
	}
	return Str{s: "<" + typeStr(a.t) + ">"}
}

func (m *M) showVal(v Value) string {
	switch x := v.(type) {
	case Str:
		if x.t == nil {
			return strconv.Quote(x.s)
		}
		return fmt.Sprintf("str[%d]", len(x.t))
	case *Term:
		return termString(x, 4)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return typeStr(x.t) + ":" + m.showVal(x.v)
	case Slice:
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range x.a {
			if i > 20 {
				sb.WriteString("...")
				break
			}
			sb.WriteString(m.showVal(e) + " ")
		}
		return sb.String() + "]"
	case Struct:
		var sb strings.Builder
		sb.WriteString("{")
		for _, e := range x {
			sb.WriteString(m.showVal(e) + " ")
		}
		return sb.String() + "}"
	case RVal:
		return "reflect.Value"
	}
	return fmt.Sprintf("%T", v)
}

// noteKey is the order in which a recorder is told things.
type noteKey struct{ p *Value }
