package main

// The symbolic interpreter of SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// M is one path: heap, goroutines, path condition.
type M struct {
	w      *Worker
	ld     *Loaded
	tb     *TB
	solver *Solver
	opt    *Options

	prefix  []Decision
	trace   []Decision
	dpos    int
	pc      []*Term
	model   Model
	memo    map[*Term]uint64
	modelOK bool

	inputs   []*Term
	counters map[string]int
	auxN     int

	end, endMsg string
	aborted     bool
	pathDone    chan struct{}
	doneOnce    sync.Once
	pathID      int
	gwg         sync.WaitGroup

	gs       []*G
	cur      *G
	main     *G
	eager    []*G
	timers   []*timer
	timerSeq int
	fires    int
	spins    int
	nVis     int
	sigs     []*ChanObj
	now      *Term
	nowBase  int64
	chanN    int
	switches int

	globals   map[*ssa.Global]*Value
	initDone  map[*ssa.Package]bool
	sampleRun *SampleRun
	consts    map[*ssa.Const]Value

	// scheduling policy
	schedMode  int // 0 deterministic, 1 exhaustive
	preemptMax int // -1 unbounded (sleep sets)
	preempts   int
	sleepSet   map[*G]bool
	clockMode  int // 0: time advances when idle; 1: sleepers may wake at any time
	mapOrder   bool
	allocLimit int64
	raceOn     bool
	exitOK     bool
	deadlockOK bool
	nodeBudget int
	quiescing  *G
	storeCount int64
	symClock   bool
	clockVar   *Term

	locks   map[*Value]*lockState
	wgs     map[*Value]*wgState
	conds   map[*Value]*condState
	onces   map[*Value]*onceState
	side    map[*Value]Value
	shadow  map[*Value]*shadow
	mshadow map[*MapObj]*shadow
	syncvc  map[interface{}]VC
	multi   bool

	viols     []*Violation
	cuts      map[string]bool
	reach     map[string]bool
	funcs     map[*ssa.Function]bool
	raceSites map[string]bool
	raceSeen  map[string]bool
	sched     []SchedEvent
	hooks     map[string]Value
	kv        map[string]Value

	steps       int64
	nAsserts    int
	nAssertQ    int
	nAssertTriv int
	nBranches   int
	nScheds     int
}

func newM(w *Worker, prefix []Decision, id int) *M {
	m := &M{w: w, ld: w.ex.ld, tb: NewTB(), solver: w.solver, opt: &w.ex.opt, prefix: prefix, pathID: id,
		counters: map[string]int{}, globals: map[*ssa.Global]*Value{}, initDone: map[*ssa.Package]bool{},
		consts: map[*ssa.Const]Value{}, locks: map[*Value]*lockState{}, wgs: map[*Value]*wgState{},
		conds: map[*Value]*condState{}, onces: map[*Value]*onceState{}, side: map[*Value]Value{}, shadow: map[*Value]*shadow{}, mshadow: map[*MapObj]*shadow{},
		syncvc: map[interface{}]VC{}, reach: map[string]bool{}, funcs: map[*ssa.Function]bool{}, raceSites: map[string]bool{},
		raceSeen: map[string]bool{}, hooks: map[string]Value{}, kv: map[string]Value{}, sleepSet: map[*G]bool{}}
	m.pathDone = make(chan struct{})
	m.model, m.memo, m.modelOK = Model{}, map[*Term]uint64{}, len(prefix) == 0
	m.now = m.tb.Const(0, 64)
	m.nowBase = 1_600_000_000_000_000_000
	m.mapOrder = true
	return m
}

type targetPanic struct {
	v     Value
	site  string
	stack []string
}

type deferred struct {
	fn    Value
	args  []Value
	inv   *ssa.CallCommon
	tail  *deferred
	instr *ssa.Defer
}

type frame struct {
	g         *G
	fn        *ssa.Function
	caller    *frame
	env       map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicv    targetPanic
	pos       token.Pos
	depth     int
	tracked   bool
	harness   bool
}

func (m *M) unsupported(msg string) {
	site := ""
	if m.cur != nil && m.cur.top != nil {
		site = " at " + m.site(m.cur)
	}
	m.finish("unsupported", msg+site)
}

func (m *M) rtPanic(msg string) {
	panic(targetPanic{v: Iface{m.ld.rtErr, Str{s: msg}}})
}

func (g *G) stack() []string {
	var r []string
	for f := g.top; f != nil; f = f.caller {
		r = append(r, fmt.Sprintf("%s (%s)", f.fn, g.m.ld.pos(f.pos)))
		if len(r) > 40 {
			break
		}
	}
	return r
}

// site is the innermost position inside the module under test (or harness).
func (m *M) site(g *G) string {
	for f := g.top; f != nil; f = f.caller {
		if inModule(f.fn) {
			return m.ld.pos(f.pos)
		}
	}
	if g.top != nil {
		return m.ld.pos(g.top.pos)
	}
	return "?"
}

func (m *M) newErr(msg Str) Value {
	cell := new(Value)
	*cell = Struct{msg}
	return Iface{m.ld.errStr, cell}
}

func (m *M) global(gl *ssa.Global) *Value {
	if p, ok := m.globals[gl]; ok {
		if !m.initDone[gl.Pkg] {
			m.initPkg(gl.Pkg)
		}
		return p
	}
	m.initPkg(gl.Pkg)
	if p, ok := m.globals[gl]; ok {
		return p
	}
	if skipInit(gl.Pkg.Pkg.Path()) && hasInit(gl) {
		m.unsupported("package variable " + gl.String())
	}
	p := new(Value)
	*p = m.zero(gl.Type().(*types.Pointer).Elem())
	m.globals[gl] = p
	return p
}

// packages whose initialisers are not run: their state is either modelled by
// intrinsics or irrelevant; error-typed globals become distinct error values.
func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "syscall", "net", "time", "fmt", "log", "os/signal", "sync", "sync/atomic", "math/rand",
		"internal/poll", "internal/godebug", "testing", "math/rand/v2", "crypto/rand", "net/netip", "io/fs":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/")
}

// hasInit reports whether the skipped initialiser of its package sets gl to
// something that matters: errors become distinct values and signals are
// passed on only.
func hasInit(gl *ssa.Global) bool {
	et := gl.Type().(*types.Pointer).Elem()
	if types.Identical(et, types.Universe.Lookup("error").Type()) || et.String() == "os.Signal" {
		return false
	}
	fn := gl.Pkg.Func("init")
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(gl) {
				return true
			}
		}
	}
	return false
}

func (m *M) initPkg(p *ssa.Package) {
	if m.initDone[p] {
		return
	}
	m.initDone[p] = true
	errT := types.Universe.Lookup("error").Type()
	for _, mem := range p.Members {
		if gl, ok := mem.(*ssa.Global); ok {
			if skipInit(p.Pkg.Path()) && hasInit(gl) {
				continue
			}
			cell := m.globals[gl]
			if cell == nil {
				cell = new(Value)
				m.globals[gl] = cell
			}
			et := gl.Type().(*types.Pointer).Elem()
			*cell = m.zero(et)
			if skipInit(p.Pkg.Path()) && types.Identical(et, errT) {
				*cell = m.newErr(Str{s: knownErr(p.Pkg.Path() + "." + gl.Name())})
			}
		}
	}
	if skipInit(p.Pkg.Path()) {
		return
	}
	initFn := p.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	g := m.cur
	saved := m.multi
	m.multi = false // initialisation happens before everything
	m.execFn(g, g.top, funcInfoOf(initFn), initFn, nil, nil)
	m.multi = saved
}

func knownErr(n string) string {
	switch n {
	case "os.ErrNotExist":
		return "file does not exist"
	case "net.ErrClosed":
		return "use of closed network connection"
	}
	return n
}

func (m *M) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		panic(engineError(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (m *M) constVal(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return v
	}
	v := m.constVal0(c)
	m.consts[c] = v
	return v
}

func (m *M) constVal0(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		m.unsupported("constant of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.tb.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	case b.Info()&types.IsInteger != 0:
		w := basicWidth(b)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return m.tb.Const(uint64(i), w)
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return m.tb.Const(u, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if basicWidth(b) == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return m.tb.Const(f2b(float64(f32), 32), 32)
		}
		return m.tb.Const(f2b(f, 64), 64)
	}
	m.unsupported("constant of type " + t.String())
	return nil
}

// call invokes fn (function value) with args.
func (m *M) call(g *G, caller *frame, fn Value, args []Value, cc *ssa.CallCommon) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(g, caller, f, args, nil)
	case *Closure:
		return m.callSSA(g, caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.callBuiltin(g, caller, f, args, cc)
	case *NativeFn:
		return f.f(m, g, args)
	}
	m.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (m *M) callSSA(g *G, caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := funcInfoOf(fn)
	if info.intr != nil {
		return info.intr(m, g, fn, args)
	}
	if fn.Blocks == nil {
		m.unsupported("external function " + fn.String())
	}
	if info.pkgInit {
		// imported initialisers: module packages now, others on first use
		if info.inMod || info.harness {
			m.initPkg(fn.Pkg)
		}
		return nil
	}
	return m.execFn(g, caller, info, fn, args, env)
}

func (m *M) execFn(g *G, caller *frame, info *funcInfo, fn *ssa.Function, args []Value, env []Value) Value {
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 3000 {
		m.finish("bound", "call depth 3000 in "+fn.String())
	}
	if info.inMod {
		m.funcs[fn] = true
	}
	fr := &frame{g: g, fn: fn, caller: caller, env: make(map[ssa.Value]Value, info.nvals), depth: depth, tracked: info.inMod || info.tracked && caller != nil && caller.tracked, harness: info.harness}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		p := new(Value)
		*p = m.zero(l.Type().(*types.Pointer).Elem())
		fr.env[l] = p
	}
	savedTop := g.top
	g.top = fr
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		m.runFrame(fr)
	}
	g.top = savedTop
	return fr.result
}

type funcInfo struct {
	nvals   int
	intr    intrinsic
	inMod   bool
	tracked bool
	harness bool
	pkgInit bool
}

var finfo sync.Map

func funcInfoOf(fn *ssa.Function) *funcInfo {
	if x, ok := finfo.Load(fn); ok {
		return x.(*funcInfo)
	}
	fi := &funcInfo{}
	fi.intr = intrinsics[fn.String()]
	if fi.intr == nil && fn.Origin() != nil {
		fi.intr = intrinsics[fn.Origin().String()]
	}
	if fi.intr == nil && fn.Pkg != nil {
		fi.intr = pkgIntrinsic(fn)
	}
	fi.inMod = inModule(fn)
	fi.tracked = fi.inMod || trackedPkg(fn)
	fi.harness = inHarness(fn)
	fi.pkgInit = fn.Pkg != nil && fn.Synthetic != "" && fn == fn.Pkg.Func("init")
	n := len(fn.Params) + len(fn.FreeVars) + len(fn.Locals)
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	fi.nvals = n
	finfo.Store(fn, fi)
	return fi
}

func trackedPkg(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "container/list", "container/heap", "bytes", "bufio", "strings", "sort", "slices", "maps":
		return true
	}
	return false
}

// runFrame executes until return or until a recovered panic.
func (m *M) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if r == nil {
				return
			}
			panic(r) // abort, engine error or Go runtime error in the engine
		}
		if tp.site == "" {
			tp.site, tp.stack = m.site(fr.g), fr.g.stack()
		}
		fr.panicking = true
		fr.panicv = tp
		fr.g.top = fr
		m.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no named results: return zero values
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
		}
	}()
	for {
		b := fr.block
		next := false
		for _, ins := range b.Instrs {
			m.steps++
			if m.steps > m.opt.StepLimit {
				m.finish("steps", "step limit")
			}
			if p := ins.Pos(); p.IsValid() {
				fr.pos = p
			}
			switch m.exec(fr, ins) {
			case 1: // return
				return
			case 2: // jump
				next = true
			}
			if next {
				break
			}
		}
		if !next {
			panic(engineError("fell off block in " + fr.fn.String()))
		}
	}
}

func (m *M) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (m *M) runDefer(fr *frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is {
				if tp.site == "" {
					tp.site, tp.stack = m.site(fr.g), fr.g.stack()
				}
				fr.panicking = true
				fr.panicv = tp
				fr.g.top = fr
				return
			}
			panic(r)
		}
	}()
	m.call(fr.g, fr, d.fn, d.args, &d.instr.Call)
	ok = true
}

func (m *M) load(t types.Type, p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.access(x, false)
		return copyVal(*x)
	case *SymPtr:
		return m.symLoad(x)
	case *RePtr:
		v := copyVal(*x.p)
		return m.reinterpret(v, x.from, x.to)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("load through %T", p))
	return nil
}

func (m *M) reinterpret(v Value, from, to types.Type) Value {
	if s, ok := v.(Slice); ok && isString(to) {
		return m.bytesToStr(m.concSlice(s, "bytes as string"))
	}
	if s, ok := v.(Str); ok {
		if _, is := to.Underlying().(*types.Slice); is {
			return m.strToBytes(s)
		}
	}
	if t, ok := v.(*Term); ok {
		if b, is := to.Underlying().(*types.Basic); is && basicWidth(b) == t.w {
			return t
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	m.unsupported(fmt.Sprintf("reinterpreting %s as %s", from, to))
	return nil
}

func (m *M) symLoad(x *SymPtr) Value {
	n := len(x.base)
	var r *Term
	for i := n - 1; i >= 0; i-- {
		t, ok := x.base[i].(*Term)
		if !ok {
			// not scalar: concretise
			k := m.concretize(x.idx, "index")
			return copyVal(x.base[k])
		}
		if r == nil {
			r = t
		} else {
			r = m.tb.Ite(m.tb.Eq(x.idx, m.tb.Const(uint64(i), 64)), t, r)
		}
	}
	return r
}

func (m *M) store(t types.Type, p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.access(x, true)
		m.storeCount++
		storeInto(x, v)
		return
	case *SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			k := m.concretize(x.idx, "index")
			storeInto(&x.base[k], v)
			return
		}
		for i := range x.base {
			x.base[i] = m.tb.Ite(m.tb.Eq(x.idx, m.tb.Const(uint64(i), 64)), nv, x.base[i].(*Term))
		}
		return
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("store through %T", p))
}

func (m *M) prepareCall(fr *frame, cc *ssa.CallCommon) (Value, []Value) {
	if cc.IsInvoke() {
		recv := m.get(fr, cc.Value)
		ifc, ok := recv.(Iface)
		if !ok {
			panic(engineError(fmt.Sprintf("invoke on %T", recv)))
		}
		args := make([]Value, 0, len(cc.Args)+1)
		if ifc.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.method(ifc, cc.Method.Pkg(), cc.Method.Name())
		args = append(args, ifc.v)
		for _, a := range cc.Args {
			args = append(args, copyVal(m.get(fr, a)))
		}
		return fn, args
	}
	fn := m.get(fr, cc.Value)
	args := make([]Value, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = m.get(fr, a)
	}
	return fn, args
}

func (m *M) method(ifc Iface, pkg *types.Package, name string) Value {
	if rt, ok := ifc.v.(RType); ok {
		return &NativeFn{name: "reflect.Type." + name, f: func(m *M, g *G, args []Value) Value {
			return m.rtypeMethod(g, rt.t, name, args[1:])
		}}
	}
	fn := m.ld.lookupMethod(ifc.t, pkg, name)
	if fn == nil {
		panic(engineError(fmt.Sprintf("no method %s on %s", name, ifc.t)))
	}
	return fn
}

// exec returns 0: continue, 1: returned, 2: jumped.
func (m *M) exec(fr *frame, ins ssa.Instruction) int {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		if x.Heap {
			p := new(Value)
			*p = m.zero(x.Type().(*types.Pointer).Elem())
			fr.env[x] = p
		} else {
			p := fr.env[x].(*Value)
			*p = m.zero(x.Type().(*types.Pointer).Elem())
		}
	case *ssa.UnOp:
		fr.env[x] = m.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = m.binop(x.Op, x.X.Type(), x.Y.Type(), m.get(fr, x.X), m.get(fr, x.Y))
	case *ssa.Call:
		fn, args := m.prepareCall(fr, &x.Call)
		fr.env[x] = m.call(fr.g, fr, fn, args, &x.Call)
	case *ssa.ChangeInterface:
		fr.env[x] = m.get(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = m.get(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.MultiConvert:
		fr.env[x] = m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.SliceToArrayPointer:
		s := m.concSlice(m.get(fr, x.X).(Slice), "slice to array")
		n := int(x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("cannot convert slice with insufficient length to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.env[x] = p
	case *ssa.MakeInterface:
		fr.env[x] = Iface{x.X.Type(), copyVal(m.get(fr, x.X))}
	case *ssa.Extract:
		fr.env[x] = m.get(fr, x.Tuple).(Tuple)[x.Index]
	case *ssa.Slice:
		fr.env[x] = m.slice(fr, x)
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = copyVal(m.get(fr, x.Results[0]))
		default:
			res := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				res[i] = copyVal(m.get(fr, r))
			}
			fr.result = res
		}
		fr.block = nil
		return 1
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Panic:
		panic(targetPanic{v: m.get(fr, x.X)})
	case *ssa.Send:
		m.chanSend(fr.g, m.get(fr, x.Chan).(*ChanObj), copyVal(m.get(fr, x.X)))
	case *ssa.Store:
		m.store(x.Val.Type(), m.get(fr, x.Addr), m.get(fr, x.Val))
	case *ssa.If:
		succ := 1
		if m.branch(m.get(fr, x.Cond).(*Term)) {
			succ = 0
		}
		m.jump(fr, fr.block.Succs[succ])
		return 2
	case *ssa.Jump:
		m.jump(fr, fr.block.Succs[0])
		return 2
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &x.Call)
		for i := range args {
			args[i] = copyVal(args[i])
		}
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers, instr: x}
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &x.Call)
		for i := range args {
			args[i] = copyVal(args[i])
		}
		cc := &x.Call
		m.spawn(fr.g, m.ld.pos(x.Pos()), func(g *G) { m.call(g, nil, fn, args, cc) })
	case *ssa.MakeChan:
		n := m.get(fr, x.Size).(*Term)
		c := m.newChan(int(m.concretize(n, "channel size")))
		c.name = m.ld.pos(x.Pos())
		fr.env[x] = c
	case *ssa.MakeSlice:
		fr.env[x] = m.makeSlice(x.Type(), m.widen(x.Len.Type(), m.get(fr, x.Len).(*Term)), m.widen(x.Cap.Type(), m.get(fr, x.Cap).(*Term)))
	case *ssa.MakeMap:
		fr.env[x] = m.newMap()
	case *ssa.Range:
		v := m.get(fr, x.X)
		switch c := v.(type) {
		case *MapObj:
			fr.env[x] = &MapIter{m: c}
		case Str:
			fr.env[x] = &StrIter{s: c}
		}
	case *ssa.Next:
		fr.env[x] = m.next(fr, x)
	case *ssa.FieldAddr:
		p := m.get(fr, x.X)
		switch q := p.(type) {
		case *Value:
			if q == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*q).(Struct)
			if !ok {
				m.unsupported(fmt.Sprintf("field address of %T (%s)", *q, x.X.Type()))
			}
			fr.env[x] = &s[x.Field]
		default:
			m.unsupported(fmt.Sprintf("field address through %T", p))
		}
	case *ssa.Field:
		v := m.get(fr, x.X)
		s, ok := v.(Struct)
		if !ok {
			m.unsupported(fmt.Sprintf("field of %T", v))
		}
		fr.env[x] = copyVal(s[x.Field])
	case *ssa.IndexAddr:
		fr.env[x] = m.indexAddr(fr, x)
	case *ssa.Index:
		fr.env[x] = m.index(fr, x)
	case *ssa.Lookup:
		fr.env[x] = m.lookup(fr, x)
	case *ssa.MapUpdate:
		mo := m.get(fr, x.Map).(*MapObj)
		if mo == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapAccess(mo, true)
		m.storeCount++
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		m.mapSet(mo, kt, m.get(fr, x.Key), m.get(fr, x.Value))
	case *ssa.TypeAssert:
		fr.env[x] = m.typeAssert(x, m.get(fr, x.X).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = m.get(fr, b)
		}
		fr.env[x] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.Phi:
		// assigned in jump
	case *ssa.Select:
		fr.env[x] = m.selectStmt(fr, x)
	default:
		m.unsupported(fmt.Sprintf("instruction %T", ins))
	}
	return 0
}

func (m *M) jump(fr *frame, to *ssa.BasicBlock) {
	from := fr.block
	fr.prev = from
	fr.block = to
	// evaluate phis simultaneously
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []Value
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, m.get(fr, phi.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

func (m *M) widen(t types.Type, v *Term) *Term {
	if v.w == 64 {
		return v
	}
	if isSigned(t) {
		return m.tb.SExt(v, 64)
	}
	return m.tb.ZExt(v, 64)
}

func (m *M) unop(fr *frame, x *ssa.UnOp) Value {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return m.load(x.Type(), v)
	case token.NOT:
		return m.tb.Not(v.(*Term))
	case token.SUB:
		if isFloat(x.X.Type()) {
			return m.tb.FNeg(v.(*Term))
		}
		return m.tb.Neg(v.(*Term))
	case token.XOR:
		return m.tb.BNot(v.(*Term))
	case token.ARROW:
		val, ok := m.chanRecv(fr.g, v.(*ChanObj), x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{val, m.tb.Bool(ok)}
		}
		return val
	}
	m.unsupported("unop " + x.Op.String())
	return nil
}

func (m *M) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.eqMixed(xt, yt, a, b)
	case token.NEQ:
		return m.tb.Not(m.eqMixed(xt, yt, a, b))
	}
	if s, ok := a.(Str); ok {
		t := b.(Str)
		switch op {
		case token.ADD:
			return m.strConcat(s, t)
		case token.LSS:
			return m.strLess(s, t)
		case token.GTR:
			return m.strLess(t, s)
		case token.LEQ:
			return m.tb.Not(m.strLess(t, s))
		case token.GEQ:
			return m.tb.Not(m.strLess(s, t))
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		m.unsupported(fmt.Sprintf("binop %s on %T", op, a))
	}
	tb := m.tb
	if isFloat(xt) {
		switch op {
		case token.ADD:
			return tb.FBin(OFAdd, x, y)
		case token.SUB:
			return tb.FBin(OFSub, x, y)
		case token.MUL:
			return tb.FBin(OFMul, x, y)
		case token.QUO:
			return tb.FBin(OFDiv, x, y)
		case token.LSS:
			return tb.FBin(OFLt, x, y)
		case token.LEQ:
			return tb.FBin(OFLe, x, y)
		case token.GTR:
			return tb.FBin(OFLt, y, x)
		case token.GEQ:
			return tb.FBin(OFLe, y, x)
		}
	}
	sg := isSigned(xt)
	switch op {
	case token.ADD:
		return tb.Bin(OAdd, x, y)
	case token.SUB:
		return tb.Bin(OSub, x, y)
	case token.MUL:
		return tb.Bin(OMul, x, y)
	case token.QUO, token.REM:
		if m.branch(tb.Eq(y, tb.Const(0, y.w))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && sg:
			o = OSDiv
		case op == token.REM && sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return tb.Bin(o, x, y)
	case token.AND:
		if x.w == 0 {
			return tb.And(x, y)
		}
		return tb.Bin(OBAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return tb.Or(x, y)
		}
		return tb.Bin(OBOr, x, y)
	case token.XOR:
		return tb.Bin(OBXor, x, y)
	case token.AND_NOT:
		return tb.Bin(OBAnd, x, tb.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if m.branch(tb.Bin(OSLt, y, tb.Const(0, y.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the shift count to x's width, saturating
		var c *Term
		if y.w > x.w {
			big := tb.Not(tb.Bin(OULt, y, tb.Const(uint64(x.w), y.w)))
			c = tb.Ite(big, tb.Const(uint64(x.w), x.w), tb.Extract(y, x.w-1, 0))
		} else {
			c = tb.ZExt(y, x.w)
		}
		if op == token.SHL {
			return tb.Bin(OShl, x, c)
		}
		if sg {
			return tb.Bin(OAShr, x, c)
		}
		return tb.Bin(OLShr, x, c)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		lt, le := OULt, OULe
		if sg {
			lt, le = OSLt, OSLe
		}
		if op == token.LSS || op == token.GTR {
			return tb.Bin(lt, x, y)
		}
		return tb.Bin(le, x, y)
	}
	m.unsupported("binop " + op.String())
	return nil
}

func (m *M) eqMixed(xt, yt types.Type, a, b Value) *Term {
	// comparison of interface with concrete: SSA inserts MakeInterface, so types agree
	return m.eq(xt, a, b)
}

func (m *M) convert(from, to types.Type, v Value) Value {
	ft, tt := from.Underlying(), to.Underlying()
	switch t := tt.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				et := ft.(*types.Slice).Elem().Underlying().(*types.Basic)
				a := m.concSlice(x, "string conversion")
				for i := range a {
					m.access(&a[i], false)
				}
				if et.Kind() == types.Byte {
					return m.bytesToStr(a)
				}
				var sb strings.Builder
				for _, r := range a {
					sb.WriteRune(rune(int32(m.concretize(r.(*Term), "rune"))))
				}
				return Str{s: sb.String()}
			case *Term:
				n := sext(m.concretize(x, "rune"), x.w)
				if n < 0 || n > 0x10ffff {
					n = 0xfffd
				}
				return Str{s: string(rune(n))}
			}
		case t.Kind() == types.UnsafePointer:
			if p, ok := v.(*Value); ok {
				if p == nil {
					return UPtr{}
				}
				return UPtr{p, ft.(*types.Pointer).Elem()}
			}
			if u, ok := v.(UPtr); ok {
				return u
			}
			if x, ok := v.(*Term); ok && x.isConst() && x.v == 0 {
				return UPtr{}
			}
		case t.Kind() == types.Uintptr:
			if u, ok := v.(UPtr); ok {
				if isNilPtr(u) {
					return m.tb.Const(0, 64)
				}
				m.unsupported("pointer to uintptr")
			}
			if x, ok := v.(*Term); ok {
				return m.numConv(ft, tt, x)
			}
		default:
			if x, ok := v.(*Term); ok {
				return m.numConv(ft, tt, x)
			}
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			if t.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
				return m.strToBytes(s)
			}
			var a []Value
			for _, r := range m.strOf(s) {
				a = append(a, m.tb.Const(uint64(r), 32))
			}
			if a == nil {
				a = []Value{}
			}
			return Slice{a: a}
		}
		return v
	case *types.Pointer:
		if u, ok := v.(UPtr); ok {
			if isNilPtr(u) {
				return (*Value)(nil)
			}
			if types.Identical(u.t.Underlying(), t.Elem().Underlying()) {
				return u.p
			}
			p := u.p.(*Value)
			fb, ok1 := u.t.Underlying().(*types.Basic)
			tb2, ok2 := t.Elem().Underlying().(*types.Basic)
			if ok1 && ok2 && fb.Info()&types.IsString == 0 && tb2.Info()&types.IsString == 0 && basicWidth(fb) == basicWidth(tb2) {
				return p
			}
			return &RePtr{p: p, from: u.t, to: t.Elem()}
		}
		return v
	case *types.Interface, *types.Struct, *types.Map, *types.Chan, *types.Signature, *types.Array:
		return v
	}
	m.unsupported(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

func (m *M) numConv(ft, tt types.Type, x *Term) *Term {
	tw := basicWidth(tt.(*types.Basic))
	ff, tf := isFloat(ft), isFloat(tt)
	switch {
	case ff && tf:
		return m.tb.FConv(OFToF, x, tw)
	case ff:
		if isSigned(tt) {
			if tw < 64 {
				return m.tb.Extract(m.tb.FConv(OFToSI, x, 64), tw-1, 0)
			}
			return m.tb.FConv(OFToSI, x, tw)
		}
		if tw < 64 {
			return m.tb.Extract(m.tb.FConv(OFToSI, x, 64), tw-1, 0)
		}
		return m.tb.FConv(OFToUI, x, tw)
	case tf:
		if isSigned(ft) {
			return m.tb.FConv(OSIToF, x, tw)
		}
		return m.tb.FConv(OUIToF, x, tw)
	}
	if x.w == 0 {
		return x
	}
	switch {
	case tw == x.w:
		return x
	case tw < x.w:
		return m.tb.Extract(x, tw-1, 0)
	case isSigned(ft):
		return m.tb.SExt(x, tw)
	}
	return m.tb.ZExt(x, tw)
}

// bounds checks 0 <= i <= n (strict: <) on 64-bit terms, panicking paths fork.
func (m *M) bounds(i, n *Term, strict bool, what string) {
	var ok *Term
	if strict {
		ok = m.tb.Bin(OULt, i, n)
	} else {
		ok = m.tb.Bin(OULe, i, n)
	}
	if !m.branch(ok) {
		m.rtPanic(what + " out of range")
	}
}

func (m *M) slice(fr *frame, x *ssa.Slice) Value {
	v := m.get(fr, x.X)
	var lo, hi, max *Term
	if x.Low != nil {
		lo = m.widen(x.Low.Type(), m.get(fr, x.Low).(*Term))
	}
	if x.High != nil {
		hi = m.widen(x.High.Type(), m.get(fr, x.High).(*Term))
	}
	if x.Max != nil {
		max = m.widen(x.Max.Type(), m.get(fr, x.Max).(*Term))
	}
	switch s := v.(type) {
	case Str:
		n := m.tb.Const(uint64(s.Len()), 64)
		if hi == nil {
			hi = n
		}
		if lo == nil {
			lo = m.tb.Const(0, 64)
		}
		m.bounds(hi, n, false, "slice bounds")
		m.bounds(lo, hi, false, "slice bounds")
		h := int(m.concretize(hi, "string bound"))
		l := int(m.concretize(lo, "string bound"))
		return m.strSlice(s, l, h)
	case Slice:
		return m.sliceSlice(s, lo, hi, max)
	case *Value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*s).(Array)
		return m.sliceSlice(Slice{a: []Value(a)[:len(a):len(a)]}, lo, hi, max)
	}
	m.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

func (m *M) sliceSlice(s Slice, lo, hi, max *Term) Value {
	tb := m.tb
	capT := m.sliceCap(s)
	lenT := m.sliceLen(s)
	if lo == nil {
		lo = tb.Const(0, 64)
	}
	hiGiven := hi != nil
	if hi == nil {
		hi = lenT
	}
	if max != nil {
		m.bounds(max, capT, false, "slice bounds")
		m.bounds(hi, max, false, "slice bounds")
	} else if hiGiven {
		m.bounds(hi, capT, false, "slice bounds")
	}
	m.bounds(lo, hi, false, "slice bounds")
	if s.a == nil && s.n == nil {
		return s // nil[0:0]
	}
	l := int(m.concretize(lo, "slice low bound"))
	if s.n == nil {
		full := s.a[:cap(s.a)]
		mx := cap(s.a)
		if max != nil {
			mx = int(m.concretize(max, "slice max"))
		}
		if hi.isConst() {
			return Slice{a: full[l:int(hi.v):mx]}
		}
		// symbolic high bound: lazy
		return Slice{a: full[l:mx:mx], n: tb.Bin(OSub, hi, tb.Const(uint64(l), 64))}
	}
	// symbolic length source
	if l > len(s.a) {
		m.finish("bound", "slice offset beyond materialised elements")
	}
	if hi.isConst() && int64(hi.v) <= int64(len(s.a)) && max == nil {
		// keep the capacity what is materialised
		return Slice{a: s.a[l:int(hi.v):len(s.a)]}
	}
	lc := tb.Const(uint64(l), 64)
	r := Slice{a: s.a[l:len(s.a):len(s.a)], n: tb.Bin(OSub, hi, lc)}
	if s.c != nil {
		r.c = tb.Bin(OSub, s.c, lc)
	}
	return r
}

const matBound = 64 // elements materialised for a slice of symbolic length

func (m *M) allocCheck(elem types.Type, n *Term) {
	if m.allocLimit <= 0 {
		return
	}
	sz := int64(sizeof(elem))
	if sz == 0 {
		sz = 1
	}
	lim := m.allocLimit / sz
	m.check(m.tb.Bin(OULe, n, m.tb.Const(uint64(lim), 64)), "alloc", fmt.Sprintf("allocation of more than %d bytes at once", m.allocLimit), m.site(m.cur))
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return stdSizes.Sizeof(t) }

func (m *M) makeSlice(t types.Type, n, c *Term) Value {
	elem := t.Underlying().(*types.Slice).Elem()
	tb := m.tb
	sz := sizeof(elem)
	if sz < 1 {
		sz = 1
	}
	maxN := uint64(1<<47) / uint64(sz)
	if !m.branch(tb.Bin(OULe, n, tb.Const(maxN, 64))) {
		m.rtPanic("makeslice: len out of range")
	}
	if n != c {
		if !m.branch(tb.And(tb.Bin(OULe, n, c), tb.Bin(OULe, c, tb.Const(maxN, 64)))) {
			m.rtPanic("makeslice: cap out of range")
		}
	}
	m.allocCheck(elem, c)
	if n != c && !c.isConst() {
		// capacity is only a hint
		c = tb.Const(m.concretize(c, "slice capacity"), 64)
	}
	if n.isConst() && c.isConst() {
		if c.v > 1<<26 {
			m.finish("bound", "concrete allocation above 2^26 elements")
		}
		a := make([]Value, int(c.v))
		z := m.zero(elem)
		for i := range a {
			a[i] = copyVal(z)
		}
		return Slice{a: a[:int(n.v)]}
	}
	// symbolic length
	a := make([]Value, matBound)
	z := m.zero(elem)
	for i := range a {
		a[i] = copyVal(z)
	}
	r := Slice{a: a, n: n}
	if n == c {
		r.c = n
	} else {
		r.c = c
	}
	return r
}

func (m *M) indexAddr(fr *frame, x *ssa.IndexAddr) Value {
	v := m.get(fr, x.X)
	idx := m.widen(x.Index.Type(), m.get(fr, x.Index).(*Term))
	var a []Value
	switch s := v.(type) {
	case Slice:
		m.bounds(idx, m.sliceLen(s), true, "index")
		a = s.a
		if s.n != nil {
			if m.branch(m.tb.Bin(OULe, m.tb.Const(uint64(len(a)), 64), idx)) {
				m.finish("bound", "index beyond materialised elements of a symbolic-length slice")
			}
		}
	case *Value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a = []Value((*s).(Array))
		m.bounds(idx, m.tb.Const(uint64(len(a)), 64), true, "index")
	default:
		m.unsupported(fmt.Sprintf("index address of %T", v))
	}
	if idx.isConst() {
		return &a[int(idx.v)]
	}
	if len(a) > 0 {
		if _, ok := a[0].(*Term); ok && len(a) <= 256 {
			return &SymPtr{a, idx}
		}
	}
	return &a[int(m.concretize(idx, "index"))]
}

func (m *M) index(fr *frame, x *ssa.Index) Value {
	v := m.get(fr, x.X)
	idx := m.widen(x.Index.Type(), m.get(fr, x.Index).(*Term))
	switch s := v.(type) {
	case Str:
		m.bounds(idx, m.tb.Const(uint64(s.Len()), 64), true, "index")
		if idx.isConst() {
			return m.strAt(s, int(idx.v))
		}
		var base []Value
		for _, t := range m.strTerms(s) {
			base = append(base, t)
		}
		if len(base) <= 256 {
			return m.symLoad(&SymPtr{base, idx})
		}
		return m.strAt(s, int(m.concretize(idx, "index")))
	case Array:
		m.bounds(idx, m.tb.Const(uint64(len(s)), 64), true, "index")
		if idx.isConst() {
			return copyVal(s[int(idx.v)])
		}
		return m.symLoad(&SymPtr{[]Value(s), idx})
	}
	m.unsupported(fmt.Sprintf("index of %T", v))
	return nil
}

func (m *M) lookup(fr *frame, x *ssa.Lookup) Value {
	v := m.get(fr, x.X)
	switch c := v.(type) {
	case Str:
		idx := m.widen(x.Index.Type(), m.get(fr, x.Index).(*Term))
		m.bounds(idx, m.tb.Const(uint64(c.Len()), 64), true, "index")
		if idx.isConst() {
			return m.strAt(c, int(idx.v))
		}
		var base []Value
		for _, t := range m.strTerms(c) {
			base = append(base, t)
		}
		return m.symLoad(&SymPtr{base, idx})
	case *MapObj:
		mt := x.X.Type().Underlying().(*types.Map)
		m.mapAccess(c, false)
		e := m.mapFind(c, mt.Key(), m.get(fr, x.Index))
		var r Value
		if e != nil {
			r = copyVal(*e.cell)
		} else {
			r = m.zero(mt.Elem())
		}
		if x.CommaOk {
			return Tuple{r, m.tb.Bool(e != nil)}
		}
		return r
	}
	m.unsupported(fmt.Sprintf("lookup in %T", v))
	return nil
}

func (m *M) next(fr *frame, x *ssa.Next) Value {
	switch it := m.get(fr, x.Iter).(type) {
	case *StrIter:
		if it.pos >= it.s.Len() {
			return Tuple{m.tb.False, m.tb.Const(0, 64), m.tb.Const(0, 32)}
		}
		p := it.pos
		if it.s.t == nil {
			for i, r := range it.s.s[p:] {
				_ = i
				n := len(string(r))
				if r == 0xfffd && !strings.HasPrefix(it.s.s[p:], "\xef\xbf\xbd") {
					n = 1
				}
				it.pos += n
				return Tuple{m.tb.True, m.tb.Const(uint64(p), 64), m.tb.Const(uint64(r), 32)}
			}
		}
		b := m.strAt(it.s, p)
		if m.branch(m.tb.Bin(OULt, b, m.tb.Const(0x80, 8))) {
			it.pos++
			return Tuple{m.tb.True, m.tb.Const(uint64(p), 64), m.tb.ZExt(b, 32)}
		}
		m.finish("bound", "range over a symbolic non-ASCII string")
	case *MapIter:
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if it.m == nil {
			return Tuple{m.tb.False, m.zero(mt.Key()), m.zero(mt.Elem())}
		}
		m.mapAccess(it.m, false)
		e := m.mapIterNext(it)
		if e == nil {
			return Tuple{m.tb.False, m.zero(mt.Key()), m.zero(mt.Elem())}
		}
		return Tuple{m.tb.True, copyVal(e.k), copyVal(*e.cell)}
	}
	panic(engineError("next"))
}

func (m *M) mapIterNext(it *MapIter) *mapEntry {
	if !it.init {
		it.init = true
		it.rest = append([]*mapEntry{}, it.m.entries...)
	}
	var live []*mapEntry
	for _, e := range it.rest {
		if !e.dead {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		it.rest = nil
		return nil
	}
	k := 0
	if m.mapOrder && len(live) > 1 {
		if len(live) <= 3 {
			k = m.choose("maporder", len(live), 'c')
		} else {
			// bounded: first, or last
			if m.choose("maporder", 2, 'c') == 1 {
				k = len(live) - 1
			}
			m.cut0("map iteration over more than 3 entries: only orders built from first/last choices")
		}
	}
	e := live[k]
	it.rest = append(append([]*mapEntry{}, live[:k]...), live[k+1:]...)
	return e
}

// cut0 records a stated bound that is not a failure of the run.
func (m *M) cut0(msg string) { m.cut("note: " + msg) }

func (m *M) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, is := x.AssertedType.Underlying().(*types.Interface); is {
			if _, isR := v.v.(RType); isR {
				ok = true
			} else {
				ok = types.Implements(v.t, it)
			}
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	if _, is := x.AssertedType.Underlying().(*types.Interface); is {
		if x.CommaOk {
			if ok {
				return Tuple{v, m.tb.True}
			}
			return Tuple{Iface{}, m.tb.False}
		}
		if ok {
			return v
		}
	} else {
		if x.CommaOk {
			if ok {
				return Tuple{copyVal(v.v), m.tb.True}
			}
			return Tuple{m.zero(x.AssertedType), m.tb.False}
		}
		if ok {
			return copyVal(v.v)
		}
	}
	dyn := "nil"
	if v.t != nil {
		dyn = typeStr(v.t)
	}
	m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, typeStr(x.AssertedType)))
	return nil
}

func (m *M) callBuiltin(g *G, caller *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	tb := m.tb
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return tb.Const(uint64(x.Len()), 64)
		case Slice:
			return m.sliceLen(x)
		case *MapObj:
			if x == nil {
				return tb.Const(0, 64)
			}
			m.mapAccess(x, false)
			return tb.Const(uint64(x.live), 64)
		case *ChanObj:
			if x == nil {
				return tb.Const(0, 64)
			}
			m.visible(g, "chanlen", x, false)
			return tb.Const(uint64(len(x.buf)), 64)
		case Array:
			return tb.Const(uint64(len(x)), 64)
		case *Value:
			return tb.Const(uint64(len((*x).(Array))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.sliceCap(x)
		case *ChanObj:
			if x == nil {
				return tb.Const(0, 64)
			}
			return tb.Const(uint64(x.cap), 64)
		case Array:
			return tb.Const(uint64(len(x)), 64)
		case *Value:
			return tb.Const(uint64(len((*x).(Array))), 64)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			if y.n != nil && !y.n.isConst() && s.n == nil && len(s.a) == 0 && cap(s.a) == 0 {
				// append(nil, x...) with x of symbolic length: a copy of x
				if !m.branch(tb.Bin(OULe, y.n, tb.Const(uint64(len(y.a)), 64))) {
					r := make([]Value, len(y.a))
					for i, v := range y.a {
						r[i] = copyVal(v)
					}
					return Slice{a: r, n: y.n, c: y.n}
				}
			}
			add = m.concSlice(y, "append")
		case Str:
			add = m.strToBytes(y).a
		}
		base := m.concSlice(s, "append")
		if len(add) == 0 {
			if s.n == nil {
				return s
			}
			return Slice{a: base}
		}
		n := len(base) + len(add)
		if n <= cap(base) {
			r := base[:n]
			for i, v := range add {
				m.access(&r[len(base)+i], true)
				storeFresh(&r[len(base)+i], v)
			}
			return Slice{a: r}
		}
		var elem types.Type
		if st, ok := b.Type().(*types.Signature); ok && st.Params().Len() > 0 {
			if sl, ok := st.Params().At(0).Type().Underlying().(*types.Slice); ok {
				elem = sl.Elem()
			}
		}
		nc := 2 * cap(base)
		if nc < n {
			nc = n
		}
		if nc < 4 {
			nc = 4
		}
		if elem != nil {
			m.allocCheck(elem, tb.Const(uint64(nc), 64))
		}
		r := make([]Value, n, nc)
		for i, v := range base {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[len(base)+i] = copyVal(v)
		}
		if elem != nil && nc > n {
			z := m.zero(elem)
			full := r[:nc]
			for i := n; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return Slice{a: r}
	case "copy":
		dst := args[0].(Slice)
		var src Slice
		switch y := args[1].(type) {
		case Slice:
			src = y
		case Str:
			src = m.strToBytes(y)
		}
		n := m.copySlices(dst, src)
		return tb.Const(uint64(n), 64)
	case "delete":
		mo := args[0].(*MapObj)
		kt := cc.Args[0].Type().Underlying().(*types.Map).Key()
		if mo == nil {
			m.checkHashable(kt, args[1])
			return nil
		}
		m.mapAccess(mo, true)
		m.storeCount++
		m.mapDelete(mo, kt, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.mapAccess(x, true)
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries, x.idx, x.live, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case Slice:
			a := m.concSlice(x, "clear")
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range a {
				storeInto(&a[i], m.zero(et))
			}
		}
		return nil
	case "close":
		m.chanClose(g, args[0].(*ChanObj))
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return m.doRecover(caller)
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			var c *Term
			if b.Name() == "min" {
				c = m.binop(token.LSS, t, t, a, r).(*Term)
			} else {
				c = m.binop(token.LSS, t, t, r, a).(*Term)
			}
			if x, ok := r.(*Term); ok {
				r = tb.Ite(c, a.(*Term), x)
			} else if m.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		if isNilPtr(args[0]) {
			return Str{}
		}
		n := int(m.concretize(m.widen(cc.Args[1].Type(), args[1].(*Term)), "unsafe.String"))
		a := m.sliceFromPtr(args[0], n)
		return m.bytesToStr(a)
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return (*Value)(nil)
		}
		return m.dataPtr(s.a)
	case "StringData":
		s := args[0].(Str)
		a := m.strToBytes(s)
		return m.dataPtr(a.a)
	case "Slice": // unsafe.Slice
		if isNilPtr(args[0]) {
			return Slice{}
		}
		n := int(m.concretize(m.widen(cc.Args[1].Type(), args[1].(*Term)), "unsafe.Slice"))
		return Slice{a: m.sliceFromPtr(args[0], n)}
	}
	m.unsupported("builtin " + b.Name())
	return nil
}

func storeFresh(p *Value, v Value) { storeInto(p, v) }

// dataPtr remembers which backing array an element pointer belongs to.
func (m *M) dataPtr(a []Value) Value {
	if cap(a) == 0 {
		p := new(Value)
		m.side[p] = Slice{a: a}
		return p
	}
	p := &a[:1][0]
	m.side[p] = Slice{a: a[:cap(a)]}
	return p
}

func (m *M) sliceFromPtr(p Value, n int) []Value {
	q, ok := p.(*Value)
	if !ok {
		m.unsupported("unsafe slice from reinterpreted pointer")
	}
	s, ok := m.side[q].(Slice)
	if !ok {
		if n == 1 {
			m.unsupported("unsafe slice of a single variable")
		}
		m.unsupported("unsafe slice of unknown pointer")
	}
	if n > cap(s.a) {
		m.unsupported("unsafe slice beyond array")
	}
	return s.a[:n]
}

func (m *M) copySlices(dst, src Slice) int {
	tb := m.tb
	if dst.n == nil && src.n == nil {
		n := len(dst.a)
		if len(src.a) < n {
			n = len(src.a)
		}
		return m.copyN(dst.a, src.a, n)
	}
	dl, sl := m.sliceLen(dst), m.sliceLen(src)
	if m.branch(tb.Bin(OULe, sl, dl)) {
		// n = len(src)
		if src.n == nil {
			n := len(src.a)
			if n > len(dst.a) {
				m.finish("bound", "copy into a symbolic-length slice beyond materialised elements")
			}
			return m.copyN(dst.a, src.a, n)
		}
		n := int(m.concretize(sl, "copy length"))
		if n > len(src.a) || n > len(dst.a) {
			m.finish("bound", "copy beyond materialised elements")
		}
		return m.copyN(dst.a, src.a, n)
	}
	if dst.n == nil {
		n := len(dst.a)
		if n > len(src.a) {
			m.finish("bound", "copy beyond materialised elements")
		}
		return m.copyN(dst.a, src.a, n)
	}
	n := int(m.concretize(dl, "copy length"))
	if n > len(src.a) || n > len(dst.a) {
		m.finish("bound", "copy beyond materialised elements")
	}
	return m.copyN(dst.a, src.a, n)
}

func (m *M) copyN(dst, src []Value, n int) int {
	tmp := make([]Value, n)
	for i := 0; i < n; i++ {
		m.access(&src[i], false)
		tmp[i] = copyVal(src[i])
	}
	for i := 0; i < n; i++ {
		m.access(&dst[i], true)
		storeInto(&dst[i], tmp[i])
	}
	return n
}

func (m *M) doRecover(caller *frame) Value {
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panicv
		if i, ok := p.v.(Iface); ok {
			return i
		}
		return Iface{}
	}
	return Iface{}
}
